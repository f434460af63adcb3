//! The properties of `crypto`, callable from outside the module.
use engine::Src;

static mut BUF: Vec<u8> = Vec::new();

#[no_mangle]
pub extern "C" fn buf(n: u32) -> *mut u8 {
    unsafe {
        BUF = vec![0; n as usize];
        BUF.as_mut_ptr()
    }
}

/// 0: held. n + 16: failed, with n bytes of message in the buffer. 3: the case
/// drew other choices than given.
#[no_mangle]
pub extern "C" fn run(prop: u32, part: u32, size: u32, nrec: u32, nout: u32) -> u32 {
    let (rec, out) = unsafe {
        let b: &[u8] = &*std::ptr::addr_of!(BUF);
        let (r, o) = b.split_at(nrec as usize * 8);
        let r: Vec<u64> = r.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        (r, o[..nout as usize].iter().map(|&x| x != 0).collect::<Vec<_>>())
    };
    engine::set_outcomes(out);
    let mut s = Src::replay(rec.clone(), size as usize);
    let r = (ozcrypto::PROPS[prop as usize].parts[part as usize].1)(&mut s);
    match r {
        Err(f) => {
            let m = format!("{}\n{}", f.sig, f.msg).into_bytes();
            let n = m.len() as u32;
            unsafe { BUF = m };
            n + 16
        }
        Ok(()) if s.rec != rec => 3,
        Ok(()) => 0,
    }
}

#[no_mangle]
pub extern "C" fn message() -> *const u8 {
    unsafe { (*std::ptr::addr_of!(BUF)).as_ptr() }
}
