//! Calls the Python functions of the extension module through an embedded interpreter.
// linked in for its module initialiser
use phlite_grpph as _;
use pyo3::prelude::*;
use pyo3::types::PyModule;

extern "C" {
    fn PyInit_phlite_grpph() -> *mut pyo3::ffi::PyObject;
}
extern "C" fn init() -> *mut pyo3::ffi::PyObject {
    unsafe { PyInit_phlite_grpph() }
}

pub type E = (u32, u32, f64);
#[derive(Clone, Debug, PartialEq)]
pub struct Bars {
    pub essential: Vec<Vec<f64>>,
    pub pairings: Vec<Vec<(f64, f64)>>,
}
fn key(x: &f64) -> u64 {
    // order of non-negative floats; negative or NaN values would still be ordered deterministically
    x.to_bits()
}
impl Bars {
    /// Each degree as a sorted multiset.
    pub fn sorted(mut self) -> Self {
        for v in &mut self.essential {
            v.sort_by_key(key);
        }
        for v in &mut self.pairings {
            v.sort_by_key(|(a, b)| (key(a), key(b)));
        }
        self
    }
}

/// Must run before the first call.
pub fn prepare() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        unsafe {
            let r = pyo3::ffi::PyImport_AppendInittab(c"phlite_grpph".as_ptr(), Some(init));
            assert_eq!(r, 0, "register the module");
        }
        pyo3::prepare_freethreaded_python();
    });
}

fn with<T>(f: impl FnOnce(Python<'_>, &Bound<'_, PyModule>) -> Result<T, String>) -> Result<T, String> {
    prepare();
    Python::with_gil(|py| {
        let m = PyModule::import_bound(py, "phlite_grpph").map_err(|e| format!("import phlite_grpph: {e}"))?;
        f(py, &m)
    })
}

pub fn grpph(n: u32, edges: &[E]) -> Result<Bars, String> {
    with(|_, m| {
        let r = m.getattr("grpph").map_err(|e| e.to_string())?.call1((n, edges.to_vec())).map_err(|e| format!("grpph raised: {e}"))?;
        let (essential, pairings) = r.extract().map_err(|e| format!("result of grpph: {e}"))?;
        Ok(Bars { essential, pairings })
    })
}

pub type Reps = Vec<Vec<(u32, u32)>>;
pub fn grpph_reps(n: u32, edges: &[E]) -> Result<(Bars, Reps), String> {
    with(|_, m| {
        let r = m
            .getattr("grpph_with_involution")
            .map_err(|e| e.to_string())?
            .call1((n, edges.to_vec()))
            .map_err(|e| format!("grpph_with_involution raised: {e}"))?;
        let (essential, pairings, reps) = r.extract().map_err(|e| format!("result of grpph_with_involution: {e}"))?;
        Ok((Bars { essential, pairings }, reps))
    })
}
