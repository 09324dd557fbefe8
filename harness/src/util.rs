use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Arguments of operations are integers in units of 1/256.
pub const S: f32 = 256.0;

/// Values far outside of any legal range are logged as this bound.
pub const BIG: i64 = 1 << 30;

/// Scaled, rounded and saturated integer; NaN becomes the lower bound minus one.
pub fn sc(x: f32, scale: f64) -> i64 {
    if x.is_nan() {
        return -BIG - 1;
    }
    let v = (x as f64 * scale).round();
    if v > BIG as f64 {
        BIG
    } else if v < -(BIG as f64) {
        -BIG
    } else {
        v as i64
    }
}

/// Order preserving integer image of a float: comparison and equality are exact.
pub fn ord(x: f32) -> i64 {
    if x.is_nan() {
        return -(i32::MAX as i64);
    }
    let b = x.to_bits();
    if b & 0x8000_0000 != 0 {
        -((b & 0x7fff_ffff) as i64)
    } else {
        b as i64
    }
}

pub fn h30(words: &[u32]) -> i64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for w in words {
        for b in w.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100_0000_01b3);
        }
    }
    ((h ^ (h >> 32)) & 0x3fff_ffff) as i64
}

pub fn gi(v: &Value, k: &str) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(0)
}
pub fn gf(v: &Value, k: &str) -> f32 {
    gi(v, k) as f32 / S
}
pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
pub fn gb(v: &Value, k: &str) -> bool {
    match v.get(k) {
        Some(Value::Bool(b)) => *b,
        Some(x) => x.as_i64().unwrap_or(0) != 0,
        None => false,
    }
}
pub fn gbd(v: &Value, k: &str, d: bool) -> bool {
    if v.get(k).is_some() {
        gb(v, k)
    } else {
        d
    }
}

static CALL_START: AtomicU64 = AtomicU64::new(0);
static CALL_TEXT: Mutex<String> = Mutex::new(String::new());

fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}

lazy_static_t0!();

/// A call that does not return within `limit_ms` is reported in `<out>.hang`.
pub fn start_watchdog(out: String, limit_ms: u64) {
    let _ = t0();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let s = CALL_START.load(Ordering::SeqCst);
        if s != 0 && now_ms(t0()) > s + limit_ms {
            let txt = CALL_TEXT.lock().map(|g| g.clone()).unwrap_or_default();
            if let Ok(mut f) = std::fs::File::create(format!("{}.hang", out)) {
                let _ = writeln!(f, "{}", txt);
            }
            std::process::exit(3);
        }
    });
}

/// Runs a call of the code under test; a panic is data.
pub fn guarded<R>(what: &Value, f: impl FnOnce() -> R) -> Result<R, String> {
    if let Ok(mut g) = CALL_TEXT.lock() {
        *g = what.to_string();
    }
    CALL_START.store(now_ms(t0()), Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CALL_START.store(0, Ordering::SeqCst);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

pub fn emit(out: &mut dyn Write, v: &Value) {
    serde_json::to_writer(&mut *out, v).unwrap();
    out.write_all(b"\n").unwrap();
}

#[allow(dead_code)]
pub fn arr(v: &[i64]) -> Value {
    json!(v)
}
