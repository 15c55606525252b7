import json
R='lib/sia/rust/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Encoded data survives bit errors of the carrier",
"Any data of up to 65535 bytes encoded for a given carrier capacity is decoded to exactly the same bytes, for every capacity, when the carrier adds arbitrary unused bytes after the code and flips bits of the stored code: at most two in each codeword, wherever they are, and every heavier pattern that twenty rounds of the code's own bit-flipping decoder correct. Where the capacity has no error-correcting code, it is decoded exactly when no bit was flipped. Longer data is refused loudly instead of being stored with a wrong length.",
["inputs","fault_sequences","configurations"],
"All data lengths 0..65535 and contents, all capacities (so all code tables and the uncoded case), all placements of flipped bits, all trailing fillers, streams delivered in any order, repeatedly, interleaved with other streams.",
"The tests decode seven clean streams for three capacities and one flipped byte of a bare code word; bit errors in a stream, fillers, the uncoded capacities and long data are never sampled.",
[R+"encoding/src/lib.rs"],
[("LDPC code chosen by capacity, length header, bit-flipping decoder",R+"encoding/src/lib.rs encode/decode/try_decode/get_code_by_codeword_length")],
["bytes returned by decode","panic on encode of too long data"])

p("C02","Embedded data survives bounded pixel noise",
"Data embedded in an image with some depth and number of wavelet levels is extracted exactly from the marked image after noise was added to its pixels, as long as neither embedding nor noise leaves the 0..255 range and in every embedding block the noise sums to less than a quarter of the depth, less the rounding to whole pixels. Wherever the capacity has an error-correcting code, up to two blocks per codeword may be destroyed altogether. This holds for every image size that fits the data, square or not.",
["inputs","fault_sequences","configurations"],
"All images away from black and white, all sizes divisible by 2^levels that fit the data, levels 1..4, all depths, payloads, noise patterns within the bound, destroyed blocks, lossless transport in any order with duplicates.",
"One unit test embeds two bytes in one 32x32 image and extracts them without noise.",
[R+"embedding/src/lib.rs",R+"embedding/src/io/steganography.rs",R+"embedding/src/haar/mod.rs",R+"embedding/src/io/data.rs",R+"encoding/src/lib.rs"],
[("bits in the fractional position of LL coefficients at a quarter and three quarters of the depth",R+"embedding/src/io/steganography.rs"),("multi-level Haar transform",R+"embedding/src/haar/mod.rs")],
["bytes returned by extract"])

p("C03","Quantized features are restored from noisy measurements",
"Whoever measures features with an error below the quantization step in every feature restores, from those measurements and the stored perturbation bits, exactly the integers the publisher quantized and signed; whoever measures one with an error above one and a half steps never does. The perturbation bits keep this after being stored as bytes, whatever the padding bits and following bytes of the record hold, for any number of features and any step.",
["inputs","fault_sequences","histories"],
"All feature vectors (length 0..85, positive, negative, on cell boundaries), steps, errors inside the bound including bursts in every feature, record round trips with arbitrary padding.",
"The tests sample one pseudo-random vector per step with one noise draw, never store the bits together with noise, and never leave the bound.",
[R+"three-bit-quantization/src/lib.rs"],
[("index modulo four and half-cell bit per feature",R+"three-bit-quantization/src/lib.rs three_bit_quantization/three_bit_dequantization"),("bit packing",R+"three-bit-quantization/src/lib.rs perturbation_vector_as_bytes/perturbation_vector_from_bytes")],
["restored integers"])

p("C04","A watermarked image authenticates after tolerable noise",
"An image channel that was watermarked is reported authentic with the same parameters, however it travelled: unchanged, stored and reloaded in a lossless format, with up to two embedded bits damaged in every codeword, or with any noise that keeps every measured feature within one quantization step of the published one. Delivery order, repetition and restarts of the verifier make no difference.",
["inputs","fault_sequences","histories"],
"All channels away from black and white (square or not), parameters, noise patterns inside the two tolerances, lossless container formats, delivery histories and verifier restarts.",
"One test authenticates one unmodified 512x512 image.",
[R+"watermarking/src/process.rs",R+"watermarking/src/watermark.rs",R+"embedding/src/lib.rs",R+"encoding/src/lib.rs",R+"three-bit-quantization/src/lib.rs",R+"signature/src/lib.rs",R+"zernike/src/calc.rs"],
[("features quantized with perturbation bits, signed, embedded with an error-correcting code",R+"watermarking/src/process.rs watermark_channel/authenticate_channel")],
["verdict of authenticate_channel"],
"authenticate_channel and watermark_channel are private; exposed with --cfg sia_sim")

p("C05","Nothing but a published image is reported authentic",
"An image channel is reported authentic only if its features lie within one and a half quantization steps of those of some image that the key's holder really watermarked with these parameters. Changed content under an intact watermark, a watermark transplanted into another image, forged or garbled watermarks and images without one are all reported as not authentic. The verdict is always given: no input channel, however damaged, makes the verifier crash or hang.",
["inputs","fault_sequences","histories"],
"All attacks on the medium between publisher and verifier: content replaced while the payload bits are preserved, payloads transplanted or replayed between images, re-embedded with other keys, features or lengths, bit damage up to complete destruction, and never-watermarked images of every size.",
"No test ever expects a negative verdict.",
[R+"watermarking/src/process.rs",R+"watermarking/src/watermark.rs",R+"embedding/src/lib.rs",R+"encoding/src/lib.rs",R+"signature/src/lib.rs"],
[("signature over the quantized features restored from the received image",R+"watermarking/src/process.rs authenticate_channel"),("unreadable data is not authentic",R+"embedding/src/lib.rs try_extract, watermark.rs try_deserialize")],
["verdict of authenticate_channel","termination"],
"authenticate_channel and watermark_channel are private; exposed with --cfg sia_sim")

p("C06","Damaged, forged or misdirected signatures are refused",
"A signature is accepted for exactly the message and key pair it was made with. Any damage to the message or the signature on their way to the verifier - changed, lost, added or reordered bytes, another key's signature, a replay for another message, an equivalent encoding of the signature's scalar - leads to refusal, and never to a crash. A damaged or different public key never leads to acceptance.",
["inputs","fault_sequences","histories"],
"All messages (empty to kilobytes), key pairs, byte-level damage and replay histories.",
"The tests verify two genuine signatures and one wrong message.",
[R+"signature/src/lib.rs",R+"signature/src/ecdsa.rs",R+"signature/src/keypair.rs"],
[("Ed25519 over the message with hexadecimal keys",R+"signature/src/lib.rs sign/verify")],
["result of verify","panic"])

p("C07","Torn records are never taken for data",
"A watermark record or an embedded data block that was cut short, at any byte, or whose length fields were damaged so that they reach past the bytes present, is never returned as data. An intact record is returned unchanged whatever bytes follow it. What does not fit a record's length fields or the image is refused loudly by the writer and not truncated.",
["inputs","crash_points","fault_sequences"],
"All records (every length of perturbation bits, signature, text, data), every cut position, every damage of the length fields, every trailing content, every oversize.",
"The tests read one complete record of each kind back.",
[R+"watermarking/src/watermark.rs",R+"embedding/src/io/data.rs",R+"embedding/src/io/mod.rs",R+"embedding/src/io/steganography.rs",R+"encoding/src/lib.rs"],
[("length-prefixed records",R+"watermarking/src/watermark.rs serialize/try_deserialize, embedding/src/io/data.rs serialize/try_deserialize"),("length checks",R+"watermarking/src/watermark.rs serialize, encoding/src/lib.rs encode/try_decode")],
["record returned or refused"],
"Data records and the record reader are private; exposed with --cfg sia_sim")

p("C08","Concurrent callers do not disturb each other",
"Any number of threads of one process may watermark, authenticate, embed, extract, encode, decode, quantize, calculate features, sign, verify and generate keys at the same time, with the same or different parameters. Every call returns what it would return if it ran alone in a fresh process, and none blocks the others forever.",
["schedules","histories","configurations"],
"All interleavings of the calls of 2..5 threads at the granularity of basic blocks of the library, allocations, writes and lock operations, over operations with equal and differing parameters.",
"Every test calls one function on one thread; the test runner's threads interleave only by chance.",
[R+"watermarking/src/process.rs",R+"embedding/src/lib.rs",R+"encoding/src/lib.rs",R+"three-bit-quantization/src/lib.rs",R+"signature/src/lib.rs",R+"zernike/src/calc.rs",R+"image-features/src/lib.rs"],
[("the libraries keep no state between calls; the only shared object is standard output",R+"*/src")],
["results of concurrent calls","progress"])

p("C09","Results depend only on arguments, not on history",
"What a call returns depends on its arguments alone: not on the calls made before it in the same process, on their number, order or parameters, and not on earlier calls having failed. A standard output that accepts only part of each write, is interrupted or is closed does not alter the result of a call that returns.",
["histories","fault_sequences"],
"All histories of calls with equal and differing parameters, with failing calls (bad keys, data that does not fit, damaged carriers, odd sizes) and write faults on standard output anywhere in between.",
"Every test makes one or two calls in a fresh state and none provokes a failure first.",
[R+"watermarking/src/process.rs",R+"embedding/src/lib.rs",R+"encoding/src/lib.rs",R+"three-bit-quantization/src/lib.rs",R+"signature/src/lib.rs",R+"zernike/src/calc.rs",R+"image-features/src/lib.rs"],
[("the libraries keep no state between calls",R+"*/src")],
["results of calls in a long-lived process compared with a fresh one"])

p("C10","The command line never reports a success it did not reach",
"Given a suffix for its outputs, the command reports an image as watermarked only after the complete output is in its file, and exits with status 0 only if it reported every input. Whatever fails - reading the input, creating the folder or file, any write, a full disk - ends with a nonzero status without such a line for the image concerned, and lines printed before it remain true.",
["fault_sequences","inputs","configurations"],
"All batches of inputs and formats, options, and failures of any file system call of a run, including running out of space after any number of bytes.",
"The command line has no tests.",
[R+"cli/src/main.rs"],
[("results unwrapped, images encoded in memory before writing",R+"cli/src/main.rs process")],
["standard output","exit status","output files"])

p("C11","The command line never harms its inputs or other files",
"A run changes nothing except the output files named after its inputs and the output folder: inputs, including aliases of inputs and inputs named like outputs, the output of another input of the run and unrelated files keep their contents whatever the names, options, order of inputs and failures. As long as an input cannot be read or processed, an earlier output of it stays as it was. Nothing but its outputs is left behind in the file system.",
["inputs","fault_sequences","configurations"],
"All batches with colliding stems, suffixes, extensions and folders, links, pre-existing outputs, read failures and crashes of the run.",
"The command line has no tests.",
[R+"cli/src/main.rs"],
[("output paths compared with inputs and earlier outputs before writing",R+"cli/src/main.rs process")],
["contents of all files before and after"])

p("C12","An interrupted command line run can be repeated",
"If the command is killed at any instant and started again with the same arguments and files, it completes with the same outputs, byte for byte, as an undisturbed run, whatever it left behind the first time, and however often that happens. Outputs it had reported before it was killed are complete at that moment.",
["crash_points","fault_sequences"],
"Every system call of a run as a crash point, including in the middle of a write, repeated crashes, and failures combined with crashes.",
"The command line has no tests, and no test stops a program midway.",
[R+"cli/src/main.rs"],
[("outputs are recreated and truncated on every run",R+"cli/src/main.rs process")],
["output files after restart","outputs at crash time"])

p("C13","The output is the watermark of its own input, despite odd I/O",
"After a successful run each output file holds the watermarked image of the input it is named after, in the format of its extension and with the same dimensions, and, as far as that format keeps them, the same presence of colour and alpha and unchanged alpha values. Short reads, short writes, interrupted calls, slow devices, the position of the input in the batch and what lay at the output's place before change neither outputs nor exit status.",
["fault_sequences","inputs","histories"],
"All batches and orders of inputs of the supported formats and colour types, all patterns of short and interrupted reads and writes.",
"The command line has no tests.",
[R+"cli/src/main.rs",R+"watermarking/src/lib.rs"],
[("output name from the input's stem, suffix and extension",R+"cli/src/main.rs process"),("channels split and merged around watermark_channel",R+"watermarking/src/lib.rs watermark")],
["decoded output images"])

p("C14","The reported duration is the time the image took",
"The duration printed for an image is the time that passed for this image - from before it is opened until its output is written - on the system's monotonic clock, in the unit that fits it, rounded down. Steps of the wall clock and stalls while other images are processed do not change it.",
["schedules","fault_sequences"],
"All durations from nanoseconds to days, all stalls of any system call, wall clock steps forward and backward, batches of images.",
"The formatter and the command line have no tests; the durations tests meet are whatever the machine takes.",
[R+"cli/src/timer.rs",R+"cli/src/main.rs"],
[("Instant taken per input",R+"cli/src/main.rs process"),("unit by magnitude",R+"cli/src/timer.rs Elapsed")],
["the line printed for each image"])

p("C15","Key pairs are made from the system's entropy only",
"Every generated key pair is made of at least 256 bits freshly taken from the system's entropy source: different entropy gives different keys, the same clock, process or call history does not repeat a key, and no key is ever returned when the source fails. Interrupted and short reads of the source or its absence as a system call neither weaken nor prevent generation. The public key always belongs to the private one.",
["fault_sequences","histories","schedules"],
"All behaviours of the entropy source: short and interrupted reads, missing system call, failing or missing device, at any call of any history, with stopped or repeated clocks.",
"One test generates one key pair with a healthy entropy source.",
[R+"signature/src/keypair.rs"],
[("Keypair::generate with the operating system's generator",R+"signature/src/keypair.rs generate")],
["generated key pairs","bytes drawn from the entropy source"],
"keypair::generate is private; exposed with --cfg sia_sim")

p("C16","Releases read each other's watermarks",
"Images watermarked before an upgrade authenticate after it and the other way round: embedded bits, code words, records, feature values and signatures written by the current code are read by an independent implementation of the published format, and those of that implementation are read by the current code, also after tolerable noise on the way.",
["inputs","histories","fault_sequences","configurations"],
"All images, parameters, payloads and mixed fleets in which publishers and verifiers of either release exchange images over a lossy medium.",
"Tests only read back what the same build wrote, so a change of format on both sides goes unnoticed.",
[R+"embedding/src/lib.rs",R+"embedding/src/io/steganography.rs",R+"encoding/src/lib.rs",R+"watermarking/src/process.rs",R+"watermarking/src/watermark.rs",R+"three-bit-quantization/src/lib.rs",R+"zernike/src/calc.rs",R+"signature/src/lib.rs"],
[("the on-image format: bit order, addressing, code table, headers, record layout, feature order, keys",R+"embedding, encoding, watermarking")],
["payloads and verdicts across implementations"],
"record and channel functions are private; exposed with --cfg sia_sim")

p("C17","The preview ends up showing the image selected last",
"Once loading has settled, the preview shows the image file the user selected last, or the default image if none was selected. That holds whatever the order in which initialization, the default image and the files finish loading, however long each takes and whichever of the others fail.",
["schedules","fault_sequences","histories"],
"All histories of selections and all completion orders, delays and failures of the module initialization, the request of the default image and the file reads.",
"The front end's only test expects the text of a template page and does not run.",
["src/Content/Content.tsx","src/Content/utils.ts"],
[("loads are numbered; only the latest may set the state","src/Content/Content.tsx loadImageFromFile")],
["rendered preview"])

p("C18","The preview shows exactly what was loaded and computed",
"What the preview draws is the selected file's image and its watermarked version, pixel by pixel, with their dimensions and format, whatever type the browser gives the file and however the file's bytes are distributed. A file that cannot be read or decoded leaves the previous preview untouched, both pictures always belong to the same file, and the next file selected is shown normally.",
["histories","fault_sequences","inputs"],
"All byte contents and declared types of files, sequences of good, undecodable and unreadable files, and reuse of the module's memory between calls.",
"The front end's only test expects the text of a template page and does not run.",
["src/Content/utils.ts","src/Content/Content.tsx","src/Canvas/Canvas.tsx","src/WatermarkingPreview/WatermarkingPreview.tsx",R+"web/src/lib.rs",R+"web/src/watermarking_process.rs",R+"web/src/image_model.rs"],
[("base64 data URL stripped and decoded, pixels copied out of the module","src/Content/utils.ts"),("pixels put on a canvas when they change","src/Canvas/Canvas.tsx")],
["pixels on the two canvases","format and size lines"])

p("C19","Zernike features follow their mathematical definition",
"For every image the features equal the magnitudes of the Zernike moments of the orders they stand for, up to numerical error.",
["inputs"],"All images and feature counts.",
"The tests sample two 8x8 images and a few moments.",
[R+"zernike/src/calc.rs",R+"image-features/src/lib.rs"],
[("recursive radial polynomials",R+"zernike/src/calc.rs")],["feature values"])

p("C20","The wavelet transform reconstructs its input",
"For every image and number of levels the inverse Haar transform of the forward transform is the image, and transforming is linear.",
["inputs"],"All images and level counts.",
"The tests transform three fixed matrices.",
[R+"embedding/src/haar/mod.rs"],[("lifting by halves",R+"embedding/src/haar/mod.rs dwt_2d")],["matrix entries"])

p("C21","Watermarking changes pixels imperceptibly",
"No pixel away from black and white changes by more than three quarters of the depth divided by two to the number of levels, plus rounding.",
["inputs"],"All images, depths and level counts.",
"No test compares a watermarked image with its original.",
[R+"embedding/src/io/steganography.rs",R+"embedding/src/lib.rs"],[("coefficients move by at most three quarters of the depth",R+"embedding/src/io/steganography.rs")],["pixel values"])
p("C22","Memory and open files stay bounded",
"A process that keeps calling the libraries does not keep more memory, open files or threads with every call, whether calls succeed, fail or meet a misbehaving standard output: what repeated calls, or ever new ones, keep does not grow with their number. A command line run holds one image at a time: a batch needs no more memory and open files at once than the largest of its images alone, apart from the list of its inputs.",
["histories","fault_sequences"],
"All public operations, repeated or with ever new arguments, all faults of standard output, panicking calls; batches of any number and sizes of inputs, some of which fail.",
"The tests make each call once and look at its result only.",
[R+"watermarking/src/process.rs",R+"embedding/src/lib.rs",R+"encoding/src/lib.rs",R+"image-features/src/lib.rs",R+"signature/src/lib.rs",R+"cli/src/main.rs"],
[("values are dropped when a call returns or unwinds",R+"watermarking/src/process.rs"),("one input is read, watermarked and written before the next",R+"cli/src/main.rs")],
["bytes allocated and not freed","open descriptors","peak of the command's heap"])

p("C23","Private keys are never disclosed",
"Except for handing a generated key to its caller, nothing the code returns, prints, writes or reports as an error contains a private key or what signing derives from it, as a whole or in parts of at least eight bytes, in whatever notation, however keys are written and whatever fails meanwhile. Signatures do not give the key away either: those of different messages or keys share no nonce, whatever the entropy and the clock, and nothing is signed with a public key that does not belong to the private key.",
["histories","fault_sequences","inputs"],
"All histories of signing, verifying, generating, watermarking and authenticating, all texts of keys including broken ones, mismatched key pairs, entropy and output faults, repeated clocks.",
"The tests compare a few results with expected ones; they never look at what is printed or reported, nor at broken keys.",
[R+"signature/src/lib.rs",R+"signature/src/keypair.rs",R+"signature/src/ecdsa.rs",R+"utils/src/format.rs",R+"watermarking/src/process.rs"],
[("keys are decoded from text",R+"utils/src/format.rs decode_hex"),("signing",R+"signature/src/lib.rs sign")],
["results","standard output and error","panic messages","signatures"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
    assert len(x['title'])<=80,x['id']
