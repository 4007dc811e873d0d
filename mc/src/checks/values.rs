//! Checks over JSON values: the encoder and the round trip.
use crate::engine::{Ctx, jstr};
use crate::gen_values::{self as gv, Size};
use crate::model::enc::{self, EncOpt};
use crate::model::value::V;
use crate::real;

pub fn case(v: &V, o: EncOpt) -> String {
    let shown = v.show();
    let shown = if shown.len() > 4000 { format!("{}...", shown.chars().take(4000).collect::<String>()) } else { shown };
    format!(
        "{{\"value\":{},\"indent\":{},\"delimiter\":{},\"fold\":{},\"flatten\":{}}}",
        jstr(&shown), o.indent, jstr(&o.delim.to_string()), o.fold, jstr(&o.flatten.to_string())
    )
}
pub const DELIMS: [char; 3] = [',', '|', '\t'];

fn round_trip(ctx: &Ctx, v: &V, o: EncOpt) {
    ctx.add(1, 2, 1);
    let text = match real::encode(v, o) {
        Ok(t) => t,
        Err(p) => return ctx.fail(&case(v, o), &format!("encoder panicked: {p}")),
    };
    match real::decode(&text, o.indent, true, false) {
        Ok(b) if b == enc::round_tripped(v, false) => {}
        Ok(b) => ctx.fail(&case(v, o), &format!("came back as {} from {text:?}", b.show())),
        Err(f) => ctx.fail(&case(v, o), &format!("own output rejected: {} from {text:?}", f.msg)),
    }
}
pub fn c01(ctx: &Ctx) {
    let z = Size::of(ctx);
    let all = |v: &V| {
        for delim in DELIMS {
            for indent in [1, 2, 3, 4] {
                round_trip(ctx, v, EncOpt { indent, delim, ..EncOpt::DEFAULT });
            }
        }
    };
    let some = |v: &V| {
        for (indent, delim) in [(2, ','), (1, '|'), (3, '\t')] {
            round_trip(ctx, v, EncOpt { indent, delim, ..EncOpt::DEFAULT });
        }
    };
    gv::trees(ctx, z.tree, &gv::basic_leaves(), &["a", "b c"], &some);
    gv::trees(ctx, z.tree - 1, &[gv::n(1.0)], &["a", "b c", "c"], &all);
    gv::strings(ctx, z, &|t| some(&gv::everywhere(t)));
    gv::strings(ctx, Size { word: 2, tok: 2, ..z }, &|t| gv::root_forms(t).iter().for_each(&all));
    gv::scalars(ctx, &|c| {
        round_trip(ctx, &gv::everywhere(&c.to_string()), EncOpt::DEFAULT);
        round_trip(ctx, &gv::everywhere(&format!("{c}a")), EncOpt { delim: '|', ..EncOpt::DEFAULT });
    });
    gv::layouts(ctx, &some);
    gv::sweeps(ctx, z, &some);
    gv::deviants(ctx, true, &some);
    gv::single_deviants(ctx, &some);
    gv::odd_levels(ctx, &some);
    gv::furniture(ctx, "every delimiter x indentations 5..17, 20, 31..33, 64", &|v| {
        for delim in DELIMS {
            for indent in (5..=17).chain([20, 31, 32, 33, 64]) {
                round_trip(ctx, v, EncOpt { indent, delim, ..EncOpt::DEFAULT });
            }
        }
    });
    gv::huge(ctx, &some);
}

fn canonical(ctx: &Ctx, v: &V, o: EncOpt) {
    let want = enc::encode_lines(v, o);
    ctx.add(1, want.len() as u64, 1);
    match real::encode_lines(v, o) {
        Ok(got) if got == want => {}
        Ok(got) => {
            let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
            ctx.fail(&case(v, o), &format!("line {} is {:?}, canonical is {:?}", i + 1, got.get(i), want.get(i)));
        }
        Err(p) => ctx.fail(&case(v, o), &format!("panicked: {p}")),
    }
}
pub fn c02(ctx: &Ctx) {
    let z = Size::of(ctx);
    let opts: Vec<EncOpt> = [(0, ',', false, 9), (2, '|', true, usize::MAX), (3, '\t', true, 2), (1, ',', true, 3), (4, '|', false, 0), (2, ',', true, 1), (2, ',', true, 0)]
        .map(|(indent, delim, fold, flatten)| EncOpt { indent, delim, fold, flatten })
        .to_vec();
    let few = |v: &V| opts[..3].iter().for_each(|o| canonical(ctx, v, *o));
    let all = |v: &V| opts.iter().for_each(|o| canonical(ctx, v, *o));
    gv::trees(ctx, z.tree, &gv::basic_leaves(), &["a", "b"], &few);
    gv::trees(ctx, z.tree - 1, &[gv::n(1.0)], &["a", "a.a", "b", "c d"], &all);
    gv::strings(ctx, z, &|t| few(&gv::everywhere(t)));
    gv::strings(ctx, Size { word: 2, tok: 2, ..z }, &|t| gv::root_forms(t).iter().for_each(&all));
    gv::scalars(ctx, &|c| {
        canonical(ctx, &gv::everywhere(&c.to_string()), EncOpt { indent: 1, delim: '|', fold: true, flatten: 9 });
        canonical(ctx, &gv::everywhere(&format!("a{c}b")), EncOpt::DEFAULT);
    });
    gv::layouts(ctx, &all);
    gv::sweeps(ctx, z, &few);
    gv::deviants(ctx, true, &few);
    gv::single_deviants(ctx, &few);
    gv::odd_levels(ctx, &few);
    gv::furniture(ctx, "every delimiter x indentations 0..9, 16, 17, 33 x no folding and flatten depths 0..5 and unlimited", &|v| {
        for delim in DELIMS {
            for indent in (0..=9).chain([16, 17, 33]) {
                for flatten in [0, 1, 2, 3, 4, 5, usize::MAX] {
                    canonical(ctx, v, EncOpt { indent, delim, fold: true, flatten });
                }
                canonical(ctx, v, EncOpt { indent, delim, fold: false, flatten: 1 });
            }
        }
    });
    gv::huge(ctx, &few);
}
