//! Lets the front end's simulator in Node call the unchanged Rust code of the web library, and makes
//! images for it and what they have to look like.
#![allow(non_camel_case_types)]
use image::{DynamicImage, GenericImageView, ImageFormat};
use js_sys::Uint8Array;
use std::ffi::{c_char, c_void, CString};
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

type env = *mut c_void;
type value = *mut c_void;
type info = *mut c_void;
type callback = extern "C" fn(env, info) -> value;

extern "C" {
    fn napi_create_function(e: env, name: *const c_char, n: usize, f: callback, data: *mut c_void, out: *mut value) -> i32;
    fn napi_set_named_property(e: env, object: value, name: *const c_char, v: value) -> i32;
    fn napi_get_cb_info(e: env, i: info, argc: *mut usize, argv: *mut value, this: *mut value, data: *mut *mut c_void) -> i32;
    fn napi_get_value_double(e: env, v: value, out: *mut f64) -> i32;
    fn napi_get_buffer_info(e: env, v: value, data: *mut *mut u8, n: *mut usize) -> i32;
    fn napi_create_buffer_copy(e: env, n: usize, data: *const u8, copy: *mut *mut u8, out: *mut value) -> i32;
    fn napi_create_object(e: env, out: *mut value) -> i32;
    fn napi_create_double(e: env, n: f64, out: *mut value) -> i32;
    fn napi_create_string_utf8(e: env, s: *const c_char, n: usize, out: *mut value) -> i32;
    fn napi_get_null(e: env, out: *mut value) -> i32;
    fn napi_throw_error(e: env, code: *const c_char, text: *const c_char) -> i32;
}

struct Call {
    e: env,
    args: Vec<value>,
}
impl Call {
    fn new(e: env, i: info) -> Call {
        let mut n = 8;
        let mut args = vec![std::ptr::null_mut(); 8];
        unsafe { napi_get_cb_info(e, i, &mut n, args.as_mut_ptr(), std::ptr::null_mut(), std::ptr::null_mut()) };
        args.truncate(n);
        Call { e, args }
    }
    fn number(&self, i: usize) -> f64 {
        let mut x = 0.;
        if let Some(v) = self.args.get(i) {
            unsafe { napi_get_value_double(self.e, *v, &mut x) };
        }
        x
    }
    fn bytes(&self, i: usize) -> Vec<u8> {
        let (mut p, mut n) = (std::ptr::null_mut(), 0);
        match self.args.get(i) {
            Some(v) if unsafe { napi_get_buffer_info(self.e, *v, &mut p, &mut n) } == 0 && n > 0 => unsafe { std::slice::from_raw_parts(p, n).to_vec() },
            _ => vec![],
        }
    }
    fn object(&self) -> Object {
        let mut v = std::ptr::null_mut();
        unsafe { napi_create_object(self.e, &mut v) };
        Object { e: self.e, v }
    }
    fn null(&self) -> value {
        let mut v = std::ptr::null_mut();
        unsafe { napi_get_null(self.e, &mut v) };
        v
    }
    fn buffer(&self, b: &[u8]) -> value {
        let mut v = std::ptr::null_mut();
        unsafe { napi_create_buffer_copy(self.e, b.len(), b.as_ptr(), std::ptr::null_mut(), &mut v) };
        v
    }
}
struct Object {
    e: env,
    v: value,
}
impl Object {
    fn set(&self, name: &str, v: value) {
        let n = CString::new(name).unwrap();
        unsafe { napi_set_named_property(self.e, self.v, n.as_ptr(), v) };
    }
    fn number(self, name: &str, x: f64) -> Object {
        let mut v = std::ptr::null_mut();
        unsafe { napi_create_double(self.e, x, &mut v) };
        self.set(name, v);
        self
    }
    fn text(self, name: &str, s: &str) -> Object {
        let mut v = std::ptr::null_mut();
        unsafe { napi_create_string_utf8(self.e, s.as_ptr() as *const c_char, s.len(), &mut v) };
        self.set(name, v);
        self
    }
    fn bytes(self, name: &str, b: &[u8]) -> Object {
        let mut v = std::ptr::null_mut();
        unsafe { napi_create_buffer_copy(self.e, b.len(), b.as_ptr(), std::ptr::null_mut(), &mut v) };
        self.set(name, v);
        self
    }
}

/// Pixel data in any type the library may give them
trait Data {
    fn bytes(&self) -> Vec<u8>;
    fn view(&self) -> bool;
    fn id(&self) -> usize;
}
impl Data for Uint8Array {
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn view(&self) -> bool {
        self.is_view()
    }
    fn id(&self) -> usize {
        self.identity()
    }
}
impl Data for js_sys::Uint8ClampedArray {
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn view(&self) -> bool {
        self.is_view()
    }
    fn id(&self) -> usize {
        self.identity()
    }
}
macro_rules! copied {
    ($($t:ty)*) => { $(impl Data for $t {
        fn bytes(&self) -> Vec<u8> {
            self.to_vec()
        }
        fn view(&self) -> bool {
            false
        }
        fn id(&self) -> usize {
            self as *const _ as usize
        }
    })* };
}
copied!(Vec<u8> Box<[u8]>);
/// The library's own function; what its objects hold
extern "C" fn process(e: env, i: info) -> value {
    let c = Call::new(e, i);
    let (bytes, depth, step) = (c.bytes(0), c.number(1), c.number(2));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let p = web::get_watermarking_process(bytes.as_slice().into(), depth, step);
        let (s, m) = (p.get_source(), p.get_watermarked());
        let (a, b) = (s.get_data(), m.get_data());
        (p.get_source_format(), (s.get_width(), s.get_height(), a.bytes(), a.view()), (m.get_width(), m.get_height(), b.bytes(), b.view()), a.id() == b.id())
    }));
    match r {
        Ok((format, s, m, same)) => {
            c.object()
                .text("format", &format)
                .number("width", s.0 as f64)
                .number("height", s.1 as f64)
                .bytes("data", &s.2)
                .number("view", s.3 as u8 as f64)
                .number("width2", m.0 as f64)
                .number("height2", m.1 as f64)
                .bytes("data2", &m.2)
                .number("view2", m.3 as u8 as f64)
                .number("same", same as u8 as f64)
                .v
        }
        Err(_) => {
            let t = CString::new("unreachable").unwrap();
            unsafe { napi_throw_error(e, std::ptr::null(), t.as_ptr()) };
            std::ptr::null_mut()
        }
    }
}

fn encode(img: &DynamicImage, f: ImageFormat) -> Option<Vec<u8>> {
    let mut c = Cursor::new(vec![]);
    catch_unwind(AssertUnwindSafe(|| img.write_to(&mut c, f))).ok()?.ok()?;
    Some(c.into_inner())
}

/// make(seed, width, height, color, format): the bytes of an image file
extern "C" fn make(e: env, i: info) -> value {
    let c = Call::new(e, i);
    let (seed, w, h, color, f) = (c.number(0) as u64, c.number(1) as u32, c.number(2) as u32, c.number(3) as u8, c.number(4) as u8);
    use image::*;
    let mix = |x: u32, y: u32, k: u64| {
        let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (k << 40);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^= z >> 27;
        let (a, b) = (1 + (z & 15) as u32, 1 + (z >> 4 & 15) as u32);
        (40 + (z >> 8 & 63) as u32 + (a * x + b * y + (x * y) / 3) % 120) as u8
    };
    let dot = c.number(5) as u32;
    let mix = |x: u32, y: u32, k: u64| {
        let changed = dot > 0 && k < 9 && (dot - 1) % (w * h).max(1) == y * w + x;
        mix(x, y, k) ^ if changed { 64 } else { 0 }
    };
    let img: DynamicImage = match color % 6 {
        0 => GrayImage::from_fn(w, h, |x, y| Luma([mix(x, y, 0)])).into(),
        1 => GrayAlphaImage::from_fn(w, h, |x, y| LumaA([mix(x, y, 0), mix(x, y, 9)])).into(),
        2 | 3 => RgbImage::from_fn(w, h, |x, y| Rgb([mix(x, y, 0), mix(x, y, 1), mix(x, y, 2)])).into(),
        _ => RgbaImage::from_fn(w, h, |x, y| Rgba([mix(x, y, 0), mix(x, y, 1), mix(x, y, 2), mix(x, y, 9)])).into(),
    };
    let f = [ImageFormat::Png, ImageFormat::Bmp, ImageFormat::Gif, ImageFormat::Jpeg, ImageFormat::Tiff][f as usize % 5];
    let b = encode(&img, f).or_else(|| encode(&DynamicImage::from(img.to_rgb8()), f)).unwrap_or_default();
    c.buffer(&b)
}

/// What has to be shown of a file, or null when it is no image that can be watermarked
extern "C" fn expect(e: env, i: info) -> value {
    let c = Call::new(e, i);
    let (bytes, depth, step) = (c.bytes(0), c.number(1), c.number(2));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let format = image::guess_format(&bytes).ok()?;
        let source = image::load_from_memory_with_format(&bytes, format).ok()?;
        let marked = watermarking::watermark(source.clone(), depth, step, 11);
        Some((format!("{:?}", format), source, marked))
    }));
    match r {
        Ok(Some((format, s, m))) => {
            let o = c.object().text("format", &format).number("width", s.width() as f64).number("height", s.height() as f64);
            let o = o.number("width2", m.dimensions().0 as f64).number("height2", m.dimensions().1 as f64);
            o.bytes("data", &s.to_rgba8()).bytes("data2", &m.to_rgba8()).v
        }
        _ => c.null(),
    }
}

#[no_mangle]
pub extern "C" fn napi_register_module_v1(e: env, exports: value) -> value {
    std::panic::set_hook(Box::new(|_| {}));
    for (name, f) in [("process", process as callback), ("make", make), ("expect", expect)] {
        let n = CString::new(name).unwrap();
        let mut v = std::ptr::null_mut();
        unsafe {
            napi_create_function(e, n.as_ptr(), name.len(), f, std::ptr::null_mut(), &mut v);
            napi_set_named_property(e, exports, n.as_ptr(), v);
        }
    }
    exports
}
