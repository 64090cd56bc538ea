use crate::*;
use zune_image::channel::Channel;
use zune_image::frame::Frame;
use zune_image::pipelines::Pipeline;

/// x * m + a on every sample
struct Lin(u8, u8);
impl OperationsTrait for Lin {
    fn name(&self) -> &'static str {
        "lin"
    }
    fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
        for c in image.channels_mut(false) {
            for x in c.reinterpret_as_mut::<u8>()? {
                *x = x.wrapping_mul(self.0).wrapping_add(self.1);
            }
        }
        Ok(())
    }
    fn supported_types(&self) -> &'static [BitType] {
        &[BitType::U8]
    }
}
/// fails, or leaves the image in a state that does not fit its description
struct Odd(usize);
impl OperationsTrait for Odd {
    fn name(&self) -> &'static str {
        "odd"
    }
    fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
        let (w, h) = image.dimensions();
        match self.0 {
            0 => return Err(ImageErrors::GenericStr("no")),
            1 => image.set_dimensions(w + 1, h),
            2 => image.set_dimensions(w, h + 1),
            3 => {
                let f = image.frames_mut().last_mut().unwrap();
                f.channels_vec().pop();
            }
            4 => {
                let f = image.frames_mut().last_mut().unwrap();
                f.channels_vec()[0].push(1u8);
            }
            6 => {
                // the last channel: alpha if there is one
                let f = image.frames_mut().last_mut().unwrap();
                f.channels_vec().last_mut().unwrap().push(1u8);
            }
            5 => image.set_depth(BitDepth::Sixteen),
            _ => {}
        }
        Ok(())
    }
    fn supported_colorspaces(&self) -> &'static [ColorSpace] {
        &[ColorSpace::RGB, ColorSpace::LumaA]
    }
    fn supported_types(&self) -> &'static [BitType] {
        &[BitType::U8]
    }
}
fn pixels(n: usize) -> Vec<u8> {
    vec(n)
}
/// args: what the operation does. execute refuses what an operation does not support, and broken images, before and after
#[no_mangle]
pub extern "C" fn execute() {
    let all = [ColorSpace::RGB, ColorSpace::LumaA, ColorSpace::Luma, ColorSpace::RGBA, ColorSpace::MultiBand(std::num::NonZeroU32::new(2).unwrap())];
    let cs = all[pick(5)];
    let n = cs.num_components();
    let frames = 1 + pick(2);
    let depth = pick(3);
    let d = [BitDepth::Eight, BitDepth::Sixteen, BitDepth::Float32][depth];
    let p = pixels(4 * n * frames * d.size_of());
    let broken = pick(5);
    let fs: Vec<Frame> = (0..frames)
        .map(|f| {
            let ch: Vec<Channel> = (0..n)
                .map(|c| {
                    let mut ch = Channel::new_with_bit_type(4 * d.size_of(), d.bit_type());
                    let k = (f * n + c) * 4 * d.size_of();
                    unsafe { ch.alias_mut() }.copy_from_slice(&p[k..k + 4 * d.size_of()]);
                    ch
                })
                .collect();
            Frame::new(ch)
        })
        .collect();
    let mut im = Image::new_frames(fs, d, 2, 2, cs);
    match broken {
        1 => im.set_dimensions(2, 3),
        2 => {
            im.frames_mut()[frames - 1].channels_vec().pop();
        }
        3 => im.set_dimensions(1, 2),
        4 => im.frames_mut()[frames - 1].channels_vec()[n - 1].push(0u8),
        _ => {}
    }
    let allowed = cs == ColorSpace::RGB || cs == ColorSpace::LumaA || n == 2 && cs != ColorSpace::LumaA;
    let fits = allowed && depth == 0 && broken == 0;
    let op = Odd(arg(0));
    let copy = op.clone_and_execute(&im);
    let mut run = im.clone();
    let r = op.execute(&mut run);
    check(copy.is_ok() == r.is_ok(), 1);
    if fits && arg(0) >= 7 {
        check(r.is_ok(), 2);
        reach(1);
    } else {
        check(r.is_err(), 3);
        reach(2);
    }
    if !fits {
        // nothing has been done
        check(run.dimensions() == im.dimensions() && run.depth() == im.depth(), 4);
        check(run == im, 5);
    }
    // the source of a clone is as it was
    let mut ok = true;
    for (f, fr) in im.frames_ref().iter().enumerate() {
        for (c, ch) in fr.channels_vec_ref().iter().enumerate() {
            let k = (f * n + c) * 4 * d.size_of();
            let b = unsafe { ch.alias() };
            for i in 0..4 * d.size_of() {
                ok &= b[i] == p[k + i];
            }
        }
    }
    check(ok, 6);
}
struct Source(Option<Image>);
impl IntoImage for Source {
    fn into_image(&mut self) -> Result<Image, ImageErrors> {
        self.0.take().ok_or(ImageErrors::GenericStr("gone"))
    }
}
/// args: images added, decoder there, operations, one that fails (0: none)
#[no_mangle]
pub extern "C" fn pipeline() {
    let (k, dec, ops, bad) = (arg(0), arg(1) == 1, arg(2), arg(3));
    let mut p = Pipeline::new();
    let mut want: Vec<Vec<u8>> = vec![];
    for _ in 0..k {
        let v = pixels(6);
        p.chain_image(Image::from_u8(&v, 2, 1, ColorSpace::RGB));
        want.push(v);
    }
    if dec {
        let v = pixels(6);
        // the last decoder counts
        p.chain_decoder(Box::new(Source(None)));
        p.chain_decoder(Box::new(Source(Some(Image::from_u8(&v, 1, 2, ColorSpace::RGB)))));
        want.push(v);
    }
    for i in 0..ops {
        let (m, a) = (u8v(), u8v());
        p.chain_operations(Box::new(Lin(m, a)));
        for w in want.iter_mut() {
            for x in w.iter_mut() {
                *x = x.wrapping_mul(m).wrapping_add(a);
            }
        }
        if bad == i + 1 {
            p.chain_operations(Box::new(Odd(0)));
        }
    }
    let r = p.advance_to_end();
    if k == 0 && !dec || bad > 0 && bad <= ops {
        check(r.is_err(), 1);
        reach(2);
        return;
    }
    check(r.is_ok(), 2);
    check(p.images().len() == want.len(), 3);
    for (i, im) in p.images().iter().enumerate() {
        check_eq(&im.flatten_frames::<u8>()[0], &want[i], 4);
    }
    // it is done: nothing runs again
    check(p.advance_to_end().is_ok(), 5);
    for (i, im) in p.images_mut().iter().enumerate() {
        check_eq(&im.flatten_frames::<u8>()[0], &want[i], 6);
    }
    reach(1);
}
