//! Stand-in for the `watermarking` crate in the command line simulation: a cheap, deterministic
//! and content-dependent transformation with the same signature, result color types and chatter on
//! stdout, so that thousands of runs of the real command line code fit into a second.
use image::{DynamicImage, GenericImageView, GrayAlphaImage, GrayImage, RgbImage, RgbaImage};

pub fn watermark(
    image: DynamicImage,
    embedding_depth: f64,
    features_quantization_step: f64,
    features_amount: usize,
) -> DynamicImage {
    let color = image.color();
    let (width, height) = image.dimensions();
    if width < 2 || height < 2 {
        panic!("stub: too small image");
    }
    println!(
        "stub watermark {}x{} {} {} {}",
        width, height, embedding_depth, features_quantization_step, features_amount
    );
    // under the simulator this takes simulated time
    if std::env::var_os("SIM_DIR").is_some() {
        std::thread::sleep(std::time::Duration::from_micros(width as u64 * height as u64));
    }
    let parameters = (embedding_depth + 7. * features_quantization_step) as u64 + 3 * features_amount as u64;
    let rgba = image.to_rgba8();
    let t = |v: u8, x: u32, y: u32| {
        let d = 3 + ((x ^ y) & 3) as u8 + (parameters % 7) as u8;
        if v > 127 { v - d } else { v + d }
    };
    if color.has_color() && color.has_alpha() {
        DynamicImage::from(RgbaImage::from_fn(width, height, |x, y| {
            let p = rgba.get_pixel(x, y).0;
            image::Rgba([t(p[0], x, y), t(p[1], x, y), t(p[2], x, y), p[3]])
        }))
    } else if color.has_color() {
        DynamicImage::from(RgbImage::from_fn(width, height, |x, y| {
            let p = rgba.get_pixel(x, y).0;
            image::Rgb([t(p[0], x, y), t(p[1], x, y), t(p[2], x, y)])
        }))
    } else if color.has_alpha() {
        DynamicImage::from(GrayAlphaImage::from_fn(width, height, |x, y| {
            let p = rgba.get_pixel(x, y).0;
            image::LumaA([t(p[0], x, y), p[3]])
        }))
    } else {
        DynamicImage::from(GrayImage::from_fn(width, height, |x, y| {
            image::Luma([t(rgba.get_pixel(x, y).0[0], x, y)])
        }))
    }
}
