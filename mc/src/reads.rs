//! Content oracles shared by many properties.
use crate::ck;
use crate::engine::R;
use crate::hist::*;
use crate::types::*;
use banyan::query::AllQuery;
use futures::executor::block_on;
use futures::StreamExt;

pub type Trip = (u64, K, Val);

pub fn there(model: &[Ent]) -> Vec<Trip> {
    model
        .iter()
        .enumerate()
        .filter(|(_, e)| e.there)
        .map(|(i, e)| (i as u64, e.k, e.v.clone()))
        .collect()
}

/// take at most `lim` items from an iterator of results; error if it does not end
pub fn drain<T>(it: impl Iterator<Item = anyhow::Result<T>>, lim: usize) -> R<Vec<T>> {
    let mut out = vec![];
    for (n, x) in it.enumerate() {
        if n >= lim {
            return Err(format!("iterator does not end after {} items", lim));
        }
        out.push(x.map_err(es)?);
    }
    Ok(out)
}

pub fn opt(e: &Ent) -> Option<(K, Val)> {
    if e.there {
        Some((e.k, e.v.clone()))
    } else {
        None
    }
}

pub fn diff<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> R<()> {
    if got == want {
        return Ok(());
    }
    let i = got
        .iter()
        .zip(want.iter())
        .position(|(a, b)| a != b)
        .unwrap_or(got.len().min(want.len()));
    Err(format!(
        "{}: got {} items, want {}; first difference at {}: got {:?} want {:?}",
        what,
        got.len(),
        want.len(),
        i,
        got.get(i),
        want.get(i)
    ))
}

/// every way of reading a tree completely agrees with the model
pub fn content(f: &F, t: &Tr, model: &[Ent]) -> R<()> {
    let n = model.len() as u64;
    ck!(t.count() == n, "count {} want {}", t.count(), n);
    ck!(t.is_empty() == (n == 0), "is_empty");
    let want: Vec<_> = model.iter().map(opt).collect();
    let got = f.collect(t).map_err(es)?;
    diff("collect", &got, &want)?;
    let lim = model.len() + 5;
    let trips = there(model);
    diff("iter_from", &drain(f.iter_from(t), lim)?, &trips)?;
    let s: Vec<_> = block_on(f.stream_filtered(t, AllQuery).take(lim).collect::<Vec<_>>());
    let s = s
        .into_iter()
        .collect::<anyhow::Result<Vec<_>>>()
        .map_err(es)?;
    diff("stream_filtered", &s, &trips)?;
    // positional reads: everywhere when small, around the edges otherwise
    let offs: Vec<u64> = if heavy(model) {
        vec![0, 1, n / 2, n - 1, n, n + 1]
    } else if n <= 40 {
        (0..n + 2).collect()
    } else {
        let mut o: Vec<u64> = (0..6).chain(n - 6..n + 2).collect();
        let step = (n / 23).max(1);
        o.extend((0..n).step_by(step as usize));
        for p in [16u64, 32, 64, 128, 256, 512, 1024] {
            o.extend((p.saturating_sub(1)..=p + 1).filter(|x| *x < n));
        }
        o.sort();
        o.dedup();
        o
    };
    for o in offs.iter().copied().chain([u64::MAX - 1, u64::MAX]) {
        let want1 = model
            .get(usize::try_from(o).unwrap_or(usize::MAX))
            .and_then(opt);
        let got1 = f.get(t, o).map_err(|e| format!("get {}: {}", o, es(e)))?;
        ck!(got1 == want1, "get {}: got {:?} want {:?}", o, got1, want1);
    }
    for o in offs {
        let want1: &[_] = want.get(o as usize..).unwrap_or(&[]);
        let got1 = f
            .collect_from(t, o)
            .map_err(|e| format!("collect_from {}: {}", o, es(e)))?;
        diff(&format!("collect_from {}", o), &got1, want1)?;
    }
    ck!(
        f.collect_from(t, u64::MAX).map_err(es)?.is_empty(),
        "collect_from(max)"
    );
    Ok(())
}

/// megabytes of values
pub fn heavy(model: &[Ent]) -> bool {
    model.iter().map(|x| x.v.0.len()).sum::<usize>() > 2 << 20
}

/// cheap variant: collect only
pub fn content_quick(f: &F, t: &Tr, model: &[Ent]) -> R<()> {
    let n = model.len() as u64;
    ck!(t.count() == n, "count {} want {}", t.count(), n);
    let want: Vec<_> = model.iter().map(opt).collect();
    let got = f.collect(t).map_err(es)?;
    diff("collect", &got, &want)
}
