//! Reference replacer traversal.
use super::value::V;

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    K(String),
    I(usize),
}
pub type Visit = (String, V, Vec<Seg>);

/// `f` answers each visit; `log` receives the visits in order.
pub fn apply(root: &V, f: &mut dyn FnMut(&str, &V, &[Seg]) -> Option<V>) -> V {
    let root = root.normal();
    let r = f("", &root, &[]).map_or(root, |v| v.normal());
    children(r, &mut vec![], f)
}
fn children(v: V, path: &mut Vec<Seg>, f: &mut dyn FnMut(&str, &V, &[Seg]) -> Option<V>) -> V {
    match v {
        V::Arr(a) => {
            let mut out = vec![];
            for (i, x) in a.into_iter().enumerate() {
                path.push(Seg::I(i));
                if let Some(y) = f(&i.to_string(), &x, path) {
                    out.push(children(y.normal(), path, f));
                }
                path.pop();
            }
            V::Arr(out)
        }
        V::Obj(m) => {
            let mut out = vec![];
            for (k, x) in m {
                path.push(Seg::K(k.clone()));
                if let Some(y) = f(&k, &x, path) {
                    let y = children(y.normal(), path, f);
                    out.push((k, y));
                }
                path.pop();
            }
            V::Obj(out)
        }
        p => p,
    }
}
