//! Well-formedness of event sequences, and the value they denote.
use super::value::{E, V};
use std::collections::HashSet;

/// A value that remembers which keys were quoted.
#[derive(Clone, Debug, PartialEq)]
pub enum N {
    P(V),
    A(Vec<N>),
    O(Vec<(String, N)>, HashSet<String>),
}
impl N {
    pub fn value(&self) -> V {
        match self {
            N::P(v) => v.clone(),
            N::A(a) => V::Arr(a.iter().map(N::value).collect()),
            N::O(m, _) => V::Obj(m.iter().map(|(k, v)| (k.clone(), v.value())).collect()),
        }
    }
}

/// Recursive-descent parse of `value := prim | SA value* EA | SO (key value)* EO`.
pub fn build(ev: &[E]) -> Option<N> {
    let mut i = 0;
    let v = value(ev, &mut i)?;
    (i == ev.len()).then_some(v)
}
fn value(ev: &[E], i: &mut usize) -> Option<N> {
    let e = ev.get(*i)?;
    *i += 1;
    match e {
        E::Prim(v) => Some(N::P(v.clone())),
        E::SA(_) => {
            let mut a = vec![];
            while *ev.get(*i)? != E::EA {
                a.push(value(ev, i)?);
            }
            *i += 1;
            Some(N::A(a))
        }
        E::SO => {
            let (mut m, mut q) = (vec![], HashSet::new());
            loop {
                let e = ev.get(*i)?;
                *i += 1;
                match e {
                    E::EO => return Some(N::O(m, q)),
                    E::Key(k, quoted) => {
                        if *quoted {
                            q.insert(k.clone());
                        }
                        let v = value(ev, i)?;
                        m.push((k.clone(), v));
                    }
                    _ => return None,
                }
            }
        }
        _ => None,
    }
}
/// Every array start carries the number of elements that follow.
pub fn lengths_match(ev: &[E]) -> bool {
    let mut st: Vec<(Option<usize>, usize)> = vec![];
    for e in ev {
        match e {
            E::Key(..) => {}
            E::EO | E::EA => {
                let (want, got) = st.pop().unwrap();
                if want.is_some_and(|w| w != got) {
                    return false;
                }
            }
            e => {
                if let Some(t) = st.last_mut() {
                    t.1 += 1;
                }
                match e {
                    E::SA(n) => st.push((Some(*n), 0)),
                    E::SO => st.push((None, 0)),
                    _ => {}
                }
            }
        }
    }
    true
}
