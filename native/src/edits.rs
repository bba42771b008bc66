//! Edit histories of a body against a plain list.
use crate::core::*;
use hcl_edit::expr::Expression;
use hcl_edit::structure::{Attribute, Block, Body, Structure};
use hcl_edit::Ident;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
struct S {
    attr: bool,
    name: &'static str,
    id: u64,
}

fn make(s: &S) -> Structure {
    if s.attr {
        Attribute::new(Ident::new(s.name), Expression::from(s.id)).into()
    } else {
        Block::builder(Ident::new(s.name)).attribute(Attribute::new(Ident::new("id"), s.id)).build().into()
    }
}

fn block_id(b: &Block) -> u64 {
    b.body.get_attribute("id").unwrap().value.as_number().unwrap().as_u64().unwrap()
}

fn attr_id(a: &Attribute) -> u64 {
    a.value.as_number().unwrap().as_u64().unwrap()
}

fn view(s: &Structure) -> (bool, String, u64) {
    match s {
        Structure::Attribute(a) => (true, a.key.to_string(), attr_id(a)),
        Structure::Block(b) => (false, b.ident.to_string(), block_id(b)),
    }
}

fn tuple(s: &S) -> (bool, String, u64) {
    (s.attr, s.name.to_string(), s.id)
}

#[derive(Clone, Debug)]
enum Op {
    Push(S),
    TryPush(S),
    Insert(usize, S),
    TryInsert(usize, S),
    Pop,
    Remove(usize),
    RemoveAttribute(&'static str),
    RemoveBlocks(&'static str),
    Clear,
    Extend(Vec<S>),
    Replace(usize, S),
    SetAttribute(&'static str, u64),
    RenameBlocks(&'static str, &'static str),
    BumpAll,
    Rebuild,
    Builder,
}

const NAMES: [&str; 4] = ["a", "b", "ab", "id"];

fn has(m: &[S], name: &str) -> bool {
    m.iter().any(|s| s.attr && s.name == name)
}

fn push(m: &mut Vec<S>, s: &S) -> bool {
    let ok = !(s.attr && has(m, s.name));
    if ok {
        m.push(s.clone());
    }
    ok
}

fn apply(body: &mut Body, m: &mut Vec<S>, op: &Op) -> Result<(), String> {
    let eq = |what: &str, a: String, b: String| ensure(a == b, || format!("{what} returns {a} instead of {b}"));
    match op {
        Op::Push(s) => {
            body.push(make(s));
            push(m, s);
        }
        Op::TryPush(s) => {
            let r = body.try_push(make(s));
            let ok = push(m, s);
            eq("try_push", format!("{:?}", r.map_err(|a| attr_id(&a))), format!("{:?}", if ok { Ok(()) } else { Err(s.id) }))?;
        }
        Op::Insert(i, s) | Op::TryInsert(i, s) => {
            let i = i % (m.len() + 1);
            let ok = !(s.attr && has(m, s.name));
            if let Op::Insert(..) = op {
                body.insert(i, make(s));
            } else {
                let r = body.try_insert(i, make(s));
                eq("try_insert", format!("{:?}", r.map_err(|a| attr_id(&a))), format!("{:?}", if ok { Ok(()) } else { Err(s.id) }))?;
            }
            if ok {
                m.insert(i, s.clone());
            }
        }
        Op::Pop => {
            let r = body.pop();
            eq("pop", format!("{:?}", r.as_ref().map(view)), format!("{:?}", m.pop().as_ref().map(tuple)))?;
        }
        Op::Remove(i) => {
            if !m.is_empty() {
                let i = i % m.len();
                let r = body.remove(i);
                eq("remove", format!("{:?}", view(&r)), format!("{:?}", tuple(&m.remove(i))))?;
            }
        }
        Op::RemoveAttribute(n) => {
            let r = body.remove_attribute(n);
            let w = m.iter().position(|s| s.attr && s.name == *n).map(|i| m.remove(i));
            eq("remove_attribute", format!("{:?}", r.map(|a| attr_id(&a))), format!("{:?}", w.map(|s| s.id)))?;
        }
        Op::RemoveBlocks(n) => {
            let r: Vec<u64> = body.remove_blocks(n).iter().map(block_id).collect();
            let w: Vec<u64> = m.iter().filter(|s| !s.attr && s.name == *n).map(|s| s.id).collect();
            m.retain(|s| s.attr || s.name != *n);
            eq("remove_blocks", format!("{r:?}"), format!("{w:?}"))?;
        }
        Op::Clear => {
            body.clear();
            m.clear();
        }
        Op::Extend(v) => {
            body.extend(v.iter().map(make));
            for s in v {
                push(m, s);
            }
        }
        Op::Replace(i, s) => {
            if let Some(x) = body.get_mut(*i) {
                *x = make(s);
            }
            if let Some(x) = m.get_mut(*i) {
                *x = s.clone();
            }
        }
        Op::SetAttribute(n, v) => {
            let r = body.get_attribute_mut(n).map(|mut a| {
                let old = attr_id(a.get());
                *a.value_mut() = Expression::from(*v);
                old
            });
            let w = m.iter_mut().find(|s| s.attr && s.name == *n).map(|s| std::mem::replace(&mut s.id, *v));
            eq("get_attribute_mut", format!("{r:?}"), format!("{w:?}"))?;
        }
        Op::RenameBlocks(n, to) => {
            for b in body.get_blocks_mut(n) {
                b.ident = Ident::new(*to).into();
            }
            for s in m.iter_mut().filter(|s| !s.attr && s.name == *n) {
                s.name = to;
            }
        }
        Op::BumpAll => {
            for mut s in body.iter_mut() {
                if let Some(mut a) = s.as_attribute_mut() {
                    let v = attr_id(a.get()) + 1000;
                    *a.value_mut() = Expression::from(v);
                } else if let Some(b) = s.as_block_mut() {
                    let v = block_id(b) + 1000;
                    *b.body.get_attribute_mut("id").unwrap().value_mut() = Expression::from(v);
                }
            }
            for s in m.iter_mut() {
                s.id += 1000;
            }
        }
        Op::Rebuild => {
            let parts: Vec<Structure> = std::mem::take(body).into_iter().collect();
            *body = Body::from(parts);
            let old = std::mem::take(m);
            for s in &old {
                push(m, s);
            }
        }
        Op::Builder => {
            let mut b = Body::builder();
            for s in std::mem::take(body) {
                b = match s {
                    Structure::Attribute(a) => b.attribute(a),
                    Structure::Block(x) => b.block(x),
                };
            }
            *body = b.build();
            let old = std::mem::take(m);
            for s in &old {
                push(m, s);
            }
        }
    }
    Ok(())
}

fn observe(body: &mut Body, m: &[S]) -> Result<(), String> {
    let want: Vec<_> = m.iter().map(tuple).collect();
    let eq = |what: &str, a: String, b: String| ensure(a == b, || format!("{what}: {a} instead of {b}"));
    let attrs: Vec<_> = want.iter().filter(|s| s.0).map(|s| s.2).collect();
    let blocks: Vec<_> = want.iter().filter(|s| !s.0).map(|s| s.2).collect();
    eq("iteration", format!("{:?}", body.iter().map(view).collect::<Vec<_>>()), format!("{want:?}"))?;
    eq("len", body.len().to_string(), m.len().to_string())?;
    eq("is_empty", body.is_empty().to_string(), m.is_empty().to_string())?;
    for i in 0..=m.len() {
        eq("get", format!("{:?}", body.get(i).map(view)), format!("{:?}", want.get(i)))?;
    }
    eq("attributes", format!("{:?}", body.attributes().map(attr_id).collect::<Vec<_>>()), format!("{attrs:?}"))?;
    eq("blocks", format!("{:?}", body.blocks().map(block_id).collect::<Vec<_>>()), format!("{blocks:?}"))?;
    eq("attributes_mut", format!("{:?}", body.attributes_mut().map(|a| attr_id(a.get())).collect::<Vec<_>>()), format!("{attrs:?}"))?;
    eq("blocks_mut", format!("{:?}", body.blocks_mut().map(|b| block_id(b)).collect::<Vec<_>>()), format!("{blocks:?}"))?;
    eq("into_attributes", format!("{:?}", body.clone().into_attributes().map(|a| attr_id(&a)).collect::<Vec<_>>()), format!("{attrs:?}"))?;
    eq("into_blocks", format!("{:?}", body.clone().into_blocks().map(|b| block_id(&b)).collect::<Vec<_>>()), format!("{blocks:?}"))?;
    for n in ["a", "b", "ab", "id", "A", ""] {
        let a = m.iter().find(|s| s.attr && s.name == n).map(|s| s.id);
        let b: Vec<_> = m.iter().filter(|s| !s.attr && s.name == n).map(|s| s.id).collect();
        eq("get_attribute", format!("{n} {:?}", body.get_attribute(n).map(attr_id)), format!("{n} {a:?}"))?;
        eq("has_attribute", format!("{n} {}", body.has_attribute(n)), format!("{n} {}", a.is_some()))?;
        eq("get_blocks", format!("{n} {:?}", body.get_blocks(n).map(block_id).collect::<Vec<_>>()), format!("{n} {b:?}"))?;
        eq("get_blocks_mut", format!("{n} {:?}", body.get_blocks_mut(n).map(|x| block_id(x)).collect::<Vec<_>>()), format!("{n} {b:?}"))?;
        eq("has_blocks", format!("{n} {}", body.has_blocks(n)), format!("{n} {}", !b.is_empty()))?;
    }
    Ok(())
}

fn run_history(ops: &[Op], every: bool) -> Result<(), String> {
    let (mut body, mut m) = (Body::new(), vec![]);
    for (i, op) in ops.iter().enumerate() {
        apply(&mut body, &mut m, op).map_err(|e| format!("step {i}: {e}"))?;
        if every || i + 1 == ops.len() {
            observe(&mut body, &m).map_err(|e| format!("after step {i}: {e}"))?;
        }
    }
    // The text of the body has the same structures, unless replaced attributes collide.
    let mut names: Vec<&str> = m.iter().filter(|s| s.attr).map(|s| s.name).collect();
    names.sort();
    let n = names.len();
    names.dedup();
    if n == names.len() {
        let text = body.to_string();
        let back: Body = text.parse().map_err(|e| format!("{text:?}: {e}"))?;
        let got: Vec<_> = back.iter().map(view).collect();
        ensure(got == m.iter().map(tuple).collect::<Vec<_>>(), || format!("printed and parsed as {got:?}"))?;
    }
    Ok(())
}

fn random_op(rng: &mut Rng, id: &mut u64) -> Op {
    *id += 1;
    let s = S { attr: rng.chance(1, 2), name: NAMES[rng.below(4)], id: *id };
    let n = NAMES[rng.below(4)];
    let i = rng.below(9);
    match rng.below(24) {
        0..=3 => Op::Push(s),
        4..=5 => Op::TryPush(s),
        6..=8 => Op::Insert(i, s),
        9..=11 => Op::TryInsert(i, s),
        12 => Op::Pop,
        13 | 14 => Op::Remove(i),
        15 => Op::RemoveAttribute(n),
        16 => Op::RemoveBlocks(n),
        17 if rng.chance(1, 4) => Op::Clear,
        17 | 18 => Op::Extend(
            (0..rng.below(6))
                .map(|_| {
                    *id += 1;
                    S { attr: rng.chance(1, 2), name: NAMES[rng.below(4)], id: *id }
                })
                .collect(),
        ),
        19 => Op::Replace(i, s),
        20 => Op::SetAttribute(n, *id),
        21 => Op::RenameBlocks(n, NAMES[rng.below(4)]),
        22 => Op::BumpAll,
        _ if rng.chance(1, 2) => Op::Rebuild,
        _ => Op::Builder,
    }
}

pub fn c08(run: &mut Run) {
    run.rule("all histories of up to four edits out of fifteen and random histories of up to forty edits, against a plain list, every lookup compared; non-trivial: at least two edits");
    let s = |attr, name, id| S { attr, name, id };
    let base = vec![
        Op::TryPush(s(true, "a", 1)),
        Op::Push(s(true, "b", 2)),
        Op::Push(s(false, "a", 3)),
        Op::TryPush(s(false, "b", 4)),
        Op::TryInsert(0, s(true, "a", 5)),
        Op::Insert(1, s(false, "a", 6)),
        Op::Insert(0, s(true, "b", 7)),
        Op::Pop,
        Op::Remove(0),
        Op::Remove(1),
        Op::RemoveAttribute("a"),
        Op::RemoveBlocks("a"),
        Op::Clear,
        Op::Extend(vec![s(true, "a", 8), s(false, "a", 9), s(true, "a", 10)]),
        Op::SetAttribute("a", 11),
    ];
    let n = base.len();
    for len in 1..=if run.thorough { 5u32 } else { 4 } {
        for code in 0..n.pow(len) {
            let mut c = code;
            let mut ops = vec![];
            for _ in 0..len {
                ops.push(base[c % n].clone());
                c /= n;
            }
            let r = run_history(&ops, false);
            run.case("history", &if r.is_err() { format!("{ops:?}") } else { code.to_string() + "#" + &len.to_string() }, len > 1, || r);
            if run.full() {
                return;
            }
        }
    }
    run.exhausted("all histories of up to four edits out of fifteen");
    let mut id = 100;
    for _ in 0..run.iters(6_000) {
        let len = 2 + run.rng.below(40);
        let mut ops: Vec<Op> = (0..len).map(|_| random_op(&mut run.rng, &mut id)).collect();
        let mut text = String::new();
        if let Err(_) = std::panic::catch_unwind(|| run_history(&ops, true)).unwrap_or_else(|_| Err("panicked".into())) {
            // shorten
            let mut i = 0;
            while i < ops.len() {
                let mut fewer = ops.clone();
                fewer.remove(i);
                if std::panic::catch_unwind(|| run_history(&fewer, true)).map_or(true, |r| r.is_err()) {
                    ops = fewer;
                } else {
                    i += 1;
                }
            }
        }
        write!(text, "{ops:?}").unwrap();
        run.case("random history", &text, true, || run_history(&ops, true));
        if run.full() {
            return;
        }
    }
}
