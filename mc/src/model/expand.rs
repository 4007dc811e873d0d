//! Reference path expansion.
use super::enc::identifier;
use super::events::N;
use super::value::V;

type Members = Vec<(String, V)>;
pub struct Conflict;

pub fn expand(n: &N, strict: bool) -> Result<V, Conflict> {
    Ok(match n {
        N::P(v) => v.clone(),
        N::A(a) => V::Arr(a.iter().map(|x| expand(x, strict)).collect::<Result<_, _>>()?),
        N::O(m, quoted) => {
            let mut out = vec![];
            for (k, v) in m {
                let v = expand(v, strict)?;
                let segs: Vec<&str> = k.split('.').collect();
                if segs.len() > 1 && !quoted.contains(k) && segs.iter().all(|s| identifier(s)) {
                    at_path(&mut out, &segs, v, strict)?;
                } else {
                    put(&mut out, k, v, strict)?;
                }
            }
            V::Obj(out)
        }
    })
}

fn at_path(m: &mut Members, segs: &[&str], v: V, strict: bool) -> Result<(), Conflict> {
    let (head, rest) = (segs[0], &segs[1..]);
    if rest.is_empty() {
        return put(m, head, v, strict);
    }
    let i = match m.iter().position(|(k, _)| k == head) {
        Some(i) => i,
        None => {
            m.push((head.to_string(), V::Obj(vec![])));
            m.len() - 1
        }
    };
    if !matches!(m[i].1, V::Obj(_)) {
        if strict {
            return Err(Conflict);
        }
        m[i].1 = V::Obj(vec![]);
    }
    let V::Obj(inner) = &mut m[i].1 else { unreachable!() };
    at_path(inner, rest, v, strict)
}

fn put(m: &mut Members, k: &str, v: V, strict: bool) -> Result<(), Conflict> {
    let Some(old) = m.iter_mut().find(|(x, _)| x == k) else {
        m.push((k.to_string(), v));
        return Ok(());
    };
    match (&mut old.1, v) {
        (V::Obj(a), V::Obj(b)) => {
            for (k, v) in b {
                put(a, &k, v, strict)?;
            }
        }
        _ if strict => return Err(Conflict),
        (slot, v) => *slot = v,
    }
    Ok(())
}
