//! The listed findings: each is reproduced here.  Err = it (still) fails.
use crate::util::*;
use certified_vars::label::Label;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Map};

fn stale(t: &dyn AsHashTree) -> Result<(), String> {
    if spec_recon(&t.as_hash_tree()) != t.root_hash() {
        return Err("the root hash does not certify the changed value".into());
    }
    Ok(())
}
fn base() -> Map<String, u32> {
    let mut m = Map::new();
    m.insert("a".to_string(), 1u32);
    m.insert("b".to_string(), 2);
    m
}
fn order<T: Label>(a: T, b: T) -> Result<(), String> {
    if a.cmp(&b) != a.as_label().cmp(&b.as_label()) {
        return Err(format!("labels {} and {} sort differently from the keys", hex(&a.as_label()), hex(&b.as_label())));
    }
    Ok(())
}
pub fn run(name: &str) -> Result<(), String> {
    match name {
        "get_mut" => {
            let mut m = base();
            *m.get_mut("a").unwrap() = 9;
            stale(&m)
        }
        "insert_ref" => {
            let mut t = RbTree::<String, u32>::new();
            *t.insert("a".to_string(), 1).1 = 9;
            stale(&t)
        }
        "vacant_insert" => {
            let mut m = base();
            if let Entry::Vacant(v) = m.entry("c".to_string()) {
                *v.insert(3) = 9;
            }
            stale(&m)
        }
        "occupied_get_mut" => {
            let mut m = base();
            if let Entry::Occupied(mut o) = m.entry("a".to_string()) {
                *o.get_mut() = 9;
            }
            stale(&m)
        }
        "occupied_into_mut" => {
            let mut m = base();
            if let Entry::Occupied(o) = m.entry("a".to_string()) {
                *o.into_mut() = 9;
            }
            stale(&m)
        }
        "or_default" => {
            let mut m = base();
            *m.entry("a".to_string()).or_default() = 9;
            stale(&m)
        }
        "or_insert" => {
            let mut m = base();
            *m.entry("a".to_string()).or_insert(5) = 9;
            stale(&m)
        }
        "or_insert_with" => {
            let mut m = base();
            *m.entry("c".to_string()).or_insert_with(|| 5) = 9;
            stale(&m)
        }
        "or_insert_with_key" => {
            let mut m = base();
            *m.entry("c".to_string()).or_insert_with_key(|_| 5) = 9;
            stale(&m)
        }
        "modify_returns_ref" => {
            let mut t = RbTree::<String, u32>::new();
            t.insert("a".to_string(), 1);
            *t.modify("a", |v| v).unwrap() = 9;
            stale(&t)
        }
        "modify_max_returns_ref" => {
            let mut t = RbTree::<Vec<u8>, u32>::new();
            t.insert(vec![1], 1);
            *t.modify_max_with_prefix(&[1u8][..], |_, v| v).unwrap() = 9;
            stale(&t)
        }
        "label_order_signed" => order(-1i32, 1i32),
        "label_order_principal" => order(candid::Principal::from_slice(&[1, 1]), candid::Principal::from_slice(&[2])),
        "label_order_nonnull" => {
            // pointers sort by address, their labels by what they point to
            let x = [2u8, 1u8];
            order(std::ptr::NonNull::from(&x[0]), std::ptr::NonNull::from(&x[1]))
        }
        "label_order_page_key" => {
            let mut p = certified_vars::Paged::<String, u32, 1>::new();
            p.insert("a".to_string(), 1);
            p.insert("a\u{0}\u{0}\u{0}\u{0}a".to_string(), 1);
            p.insert("a\u{0}".to_string(), 1);
            for i in 0..3 {
                p.insert("a".to_string(), i);
            }
            let l: Vec<Vec<u8>> = p.as_hash_tree().get_labels().iter().map(|x| x.to_vec()).collect();
            let mut s = l.clone();
            s.sort();
            if s != l {
                return Err("the labels of pages of variable-length keys are not sorted as the keys are".into());
            }
            Ok(())
        }
        x => panic!("unknown finding {}", x),
    }
}
