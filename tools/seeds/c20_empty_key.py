ID = "c20-empty-key"; PROPERTY = "C20"
NEEDS = "a get through the C interface for the empty key (key_size 0)"
BREAKS = "hb_get returns at once with a status instead of looking the key up: the callback is never invoked"
EDITS = [("src/external.rs", """    let rkey = vec_from_c_vec(key_buff, key_size);
""", """    if key_buff.is_null() || key_size < 1 {
        return -1;
    }
    let rkey = vec_from_c_vec(key_buff, key_size);
""")]
MAIN = r'''
use hyperbee::Hyperbee;
use std::{ffi::CString, os::raw::c_char, sync::mpsc, time::Duration};
#[allow(improper_ctypes)]
extern "C" {
    fn init_runtime() -> *mut u8;
    fn close_runtime(rt: *mut u8);
    fn hyperbee_from_storage_directory(rt: *mut u8, dir: *const c_char) -> *mut Hyperbee;
    fn close_hyperbee(hb: *mut Hyperbee);
    fn hb_get(rt: *mut u8, hb: *mut Hyperbee, key: *const u8, n: usize, cb: unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize)) -> i32;
    fn deallocate_rust_string(p: *mut c_char);
    fn deallocate_rust_buffer(p: *mut u8, n: usize);
}
static mut TX: Option<mpsc::Sender<(i64, u64, Vec<u8>)>> = None;
unsafe extern "C" fn cb(code: i64, msg: *const c_char, seq: u64, buf: *mut u8, n: usize) {
    let v = std::slice::from_raw_parts(buf, n).to_vec();
    deallocate_rust_string(msg as *mut c_char);
    deallocate_rust_buffer(buf, n);
    let tx = std::ptr::addr_of!(TX);
    (*tx).as_ref().unwrap().send((code, seq, v)).unwrap();
}
fn main() {
    let dir = std::env::temp_dir().join(format!("c20-{}", std::process::id()));
    let d = dir.to_str().unwrap().to_string();
    tokio::runtime::Runtime::new().unwrap().block_on(async {
        let hb = Hyperbee::from_storage_dir(&d).await.unwrap();
        hb.put(b"", Some(b"empty")).await.unwrap();
        hb.put(b"k", Some(b"v")).await.unwrap();
    });
    let (tx, rx) = mpsc::channel();
    unsafe {
        *std::ptr::addr_of_mut!(TX) = Some(tx);
        let rt = init_runtime();
        let cd = CString::new(d).unwrap();
        let hb = hyperbee_from_storage_directory(rt, cd.as_ptr());
        assert!(!hb.is_null());
        for (k, want) in [(&b"k"[..], (0, 2, b"v".to_vec())), (b"", (0, 1, b"empty".to_vec())), (b"x", (0, 0, vec![]))] {
            hb_get(rt, hb, k.as_ptr(), k.len(), cb);
            let got = rx.recv_timeout(Duration::from_secs(10)).expect("no answer");
            assert_eq!(got, want);
            assert!(rx.recv_timeout(Duration::from_millis(200)).is_err(), "second answer");
        }
        close_hyperbee(hb);
        close_runtime(rt);
    }
    std::fs::remove_dir_all(dir).unwrap();
}
'''
