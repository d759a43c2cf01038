//! Pinned scenarios: defects of the wire format that were found and are recorded, not repaired. Each one
//! fails here exactly as long as the defect is there.

use crate::content::{self, C};
use crate::engine::{calm, Ctx, Res};
use crate::spec;
use candid::Principal;
use certified_vars::{AsHashTree, HashTree, Map, Paged};

pub fn of(prop: &str) -> &'static [&'static str] {
    match prop {
        "C04" => &["C04-signed-keys", "C04-principal-keys", "C04-paged-text-keys"],
        "C11" => &["C11-paged-text-keys"],
        _ => &[],
    }
}

fn wire(t: &HashTree<'_>) -> Vec<u8> {
    serde_cbor::to_vec(t).expect("a hash tree can be encoded")
}

fn item(b: u8) -> Vec<u8> {
    vec![b]
}

/// Each witness is honest, and hides everything but the entry asked for. A client that knows the labels
/// ascend concludes from it that a stored key is absent.
pub fn run(ctx: &mut Ctx, name: &str) -> Res {
    let (bytes, root, c): (Vec<u8>, spec::H, C) = match name {
        "C04-signed-keys" => {
            let mut m: Map<i8, Vec<u8>> = Map::new();
            m.insert(-1, item(1));
            m.insert(1, item(2));
            let c = C::Map(vec![(vec![0xff], C::Leaf(item(1))), (vec![1], C::Leaf(item(2)))]);
            let w = calm(ctx, "a witness", || wire(&m.witness(&1)))?;
            (w, m.root_hash(), c)
        }
        "C04-principal-keys" => {
            let p = |b: &[u8]| Principal::from_slice(b);
            let mut m: Map<Principal, Vec<u8>> = Map::new();
            m.insert(p(&[2]), item(1));
            m.insert(p(&[1, 0]), item(2));
            let c = C::Map(vec![(vec![2], C::Leaf(item(1))), (vec![1, 0], C::Leaf(item(2)))]);
            let w = calm(ctx, "a witness", || wire(&m.witness(&p(&[1, 0]))))?;
            (w, m.root_hash(), c)
        }
        "C04-paged-text-keys" | "C11-paged-text-keys" => {
            let mut m: Paged<String, u8, 1> = Paged::new();
            for (k, v) in [("a", 1), ("a", 2), ("a\0", 3)] {
                m.insert(k.to_string(), v);
            }
            // Pages 0 and 1 of "a", and page 0 of "a\0": the last label is below the one before it.
            let l = |k: &[u8], n: u8| [k, &[0, 0, 0, n]].concat();
            let one = |b: u8| C::Seq(vec![C::Leaf(item(b))]);
            let c = C::Map(vec![(l(b"a", 0), one(1)), (l(b"a", 1), one(2)), (l(b"a\0", 0), one(3))]);
            let w = calm(ctx, "a witness", || wire(&m.witness(&"a\0".to_string(), 0)))?;
            (w, m.root_hash(), c)
        }
        _ => return ctx.fail("harness", format!("no scenario {}", name)),
    };
    let t = match spec::parse(&bytes) {
        Ok(t) => t,
        Err(e) => return ctx.fail("answer malformed", e),
    };
    if t.hash() != root {
        return ctx.fail("answer rejected", "the answer does not hash to the root");
    }
    match content::sound(&t, &c, &[], true) {
        Ok(()) => Ok(()),
        Err(e) => ctx.fail("known", e),
    }
}
