//! A layer between SQLite and the files: it makes chosen accesses fail, or takes its time, and forwards everything.
use rusqlite::ffi;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, Ordering::SeqCst};

/// Accesses before the failing one; negative: none fails.
static LEFT: AtomicI64 = AtomicI64::new(-1);
/// All accesses from then on fail, not just the one.
static REST: AtomicBool = AtomicBool::new(false);
/// Opening a file fails as well as reading it.
static OPENS: AtomicBool = AtomicBool::new(false);
static FAILED: AtomicBool = AtomicBool::new(false);
static SLOW: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(1);
static REAL: AtomicPtr<ffi::sqlite3_vfs> = AtomicPtr::new(std::ptr::null_mut());
static LAYER: AtomicPtr<ffi::sqlite3_vfs> = AtomicPtr::new(std::ptr::null_mut());

#[repr(C)]
struct File {
    base: ffi::sqlite3_file,
    real: *mut ffi::sqlite3_file,
    /// Not read yet: SQLite reads the header of a file as a part of opening it.
    fresh: bool,
}

fn fails() -> bool {
    if SLOW.load(SeqCst) {
        let mut x = SEED.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst);
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        match (x >> 40) % 8 {
            0 => std::thread::sleep(std::time::Duration::from_micros((x >> 20) % 400)),
            1..=3 => std::thread::yield_now(),
            _ => {}
        }
    }
    let n = LEFT.load(SeqCst);
    if n < 0 {
        return false;
    }
    if n > 0 {
        LEFT.store(n - 1, SeqCst);
        return false;
    }
    if !REST.load(SeqCst) {
        LEFT.store(-1, SeqCst);
    }
    FAILED.store(true, SeqCst);
    true
}

/// From here on the access number `after` fails.
pub fn arm(after: i64, rest: bool, opens: bool) {
    OPENS.store(opens, SeqCst);
    REST.store(rest, SeqCst);
    FAILED.store(false, SeqCst);
    LEFT.store(after, SeqCst);
}

/// No access fails any more; whether one has.
pub fn disarm() -> bool {
    LEFT.store(-1, SeqCst);
    FAILED.swap(false, SeqCst)
}

macro_rules! forward {
    ($($name:ident($($arg:ident: $t:ty),*);)*) => {
        $(unsafe extern "C" fn $name(f: *mut ffi::sqlite3_file, $($arg: $t),*) -> c_int {
            let real = (*(f as *mut File)).real;
            (*(*real).pMethods).$name.unwrap()(real, $($arg),*)
        })*
    };
}

#[allow(non_snake_case)]
mod methods {
    use super::*;
    forward! {
        xWrite(p: *const c_void, n: c_int, at: ffi::sqlite3_int64);
        xTruncate(n: ffi::sqlite3_int64);
        xSync(flags: c_int);
        xUnlock(level: c_int);
        xCheckReservedLock(out: *mut c_int);
        xFileControl(op: c_int, p: *mut c_void);
        xSectorSize();
        xDeviceCharacteristics();
        xShmMap(page: c_int, size: c_int, extend: c_int, out: *mut *mut c_void);
        xShmLock(at: c_int, n: c_int, flags: c_int);
        xShmUnmap(delete: c_int);
        xFetch(at: ffi::sqlite3_int64, n: c_int, out: *mut *mut c_void);
        xUnfetch(at: ffi::sqlite3_int64, p: *mut c_void);
    }
    unsafe extern "C" fn xShmBarrier(f: *mut ffi::sqlite3_file) {
        let real = (*(f as *mut File)).real;
        (*(*real).pMethods).xShmBarrier.unwrap()(real)
    }
    unsafe extern "C" fn xClose(f: *mut ffi::sqlite3_file) -> c_int {
        let real = (*(f as *mut File)).real;
        (*(*real).pMethods).xClose.unwrap()(real)
    }
    unsafe extern "C" fn xRead(f: *mut ffi::sqlite3_file, p: *mut c_void, n: c_int, at: ffi::sqlite3_int64) -> c_int {
        let opening = std::mem::replace(&mut (*(f as *mut File)).fresh, false);
        if (!opening || OPENS.load(SeqCst)) && fails() {
            return ffi::SQLITE_IOERR_READ;
        }
        let real = (*(f as *mut File)).real;
        (*(*real).pMethods).xRead.unwrap()(real, p, n, at)
    }
    unsafe extern "C" fn xFileSize(f: *mut ffi::sqlite3_file, out: *mut ffi::sqlite3_int64) -> c_int {
        if fails() {
            return ffi::SQLITE_IOERR_FSTAT;
        }
        let real = (*(f as *mut File)).real;
        (*(*real).pMethods).xFileSize.unwrap()(real, out)
    }
    unsafe extern "C" fn xLock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
        if fails() {
            return ffi::SQLITE_IOERR_LOCK;
        }
        let real = (*(f as *mut File)).real;
        (*(*real).pMethods).xLock.unwrap()(real, level)
    }
    pub static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
        iVersion: 3,
        xClose: Some(xClose),
        xRead: Some(xRead),
        xWrite: Some(xWrite),
        xTruncate: Some(xTruncate),
        xSync: Some(xSync),
        xFileSize: Some(xFileSize),
        xLock: Some(xLock),
        xUnlock: Some(xUnlock),
        xCheckReservedLock: Some(xCheckReservedLock),
        xFileControl: Some(xFileControl),
        xSectorSize: Some(xSectorSize),
        xDeviceCharacteristics: Some(xDeviceCharacteristics),
        xShmMap: Some(xShmMap),
        xShmLock: Some(xShmLock),
        xShmBarrier: Some(xShmBarrier),
        xShmUnmap: Some(xShmUnmap),
        xFetch: Some(xFetch),
        xUnfetch: Some(xUnfetch),
    };
}

unsafe extern "C" fn open(
    _vfs: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    f: *mut ffi::sqlite3_file,
    flags: c_int,
    out: *mut c_int,
) -> c_int {
    let file = f as *mut File;
    (*file).base.pMethods = std::ptr::null();
    (*file).fresh = true;
    if OPENS.load(SeqCst) && fails() {
        return ffi::SQLITE_CANTOPEN;
    }
    let vfs = REAL.load(SeqCst);
    let real = (file as *mut u8).add(std::mem::size_of::<File>()) as *mut ffi::sqlite3_file;
    (*file).real = real;
    let rc = (*vfs).xOpen.unwrap()(vfs, name, real, flags, out);
    if !(*real).pMethods.is_null() {
        (*file).base.pMethods = &methods::METHODS;
    }
    rc
}

/// The layer is in use as long as this lives.
pub struct Layer;

impl Layer {
    pub fn new(slow: bool, seed: u64) -> Layer {
        unsafe {
            if LAYER.load(SeqCst).is_null() {
                let real = ffi::sqlite3_vfs_find(std::ptr::null());
                REAL.store(real, SeqCst);
                let mut vfs = std::ptr::read(real);
                vfs.szOsFile += std::mem::size_of::<File>() as c_int;
                vfs.pNext = std::ptr::null_mut();
                vfs.zName = c"layer".as_ptr();
                vfs.xOpen = Some(open);
                LAYER.store(Box::into_raw(Box::new(vfs)), SeqCst);
            }
            SLOW.store(slow, SeqCst);
            SEED.store(seed, SeqCst);
            assert_eq!(ffi::sqlite3_vfs_register(LAYER.load(SeqCst), 1), ffi::SQLITE_OK, "tool: vfs");
        }
        Layer
    }
}

impl Drop for Layer {
    fn drop(&mut self) {
        disarm();
        SLOW.store(false, SeqCst);
        unsafe {
            ffi::sqlite3_vfs_unregister(LAYER.load(SeqCst));
        }
    }
}
