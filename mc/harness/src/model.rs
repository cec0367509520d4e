//! Reference semantics of diffs.
use futures_signals::signal_map::MapDiff;
use futures_signals::signal_vec::VecDiff;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub fn show_vec<T: Debug>(d: &VecDiff<T>) -> String { format!("{:?}", d) }
pub fn show_map<K: Debug, V: Debug>(d: &MapDiff<K, V>) -> String { format!("{:?}", d) }

/// Applies a diff; an invalid one is a violation.
pub fn apply<T: Debug>(v: &mut Vec<T>, d: VecDiff<T>) {
    let n = v.len();
    let bad = |d: &dyn Debug| -> ! { panic!("the diff {:?} is not valid for {} element(s)", d, n) };
    match d {
        VecDiff::Replace { values } => *v = values,
        VecDiff::InsertAt { index, value } => { if index > n { bad(&("InsertAt", index)) } v.insert(index, value) }
        VecDiff::UpdateAt { index, value } => { if index >= n { bad(&("UpdateAt", index)) } v[index] = value }
        VecDiff::RemoveAt { index } => { if index >= n { bad(&("RemoveAt", index)) } v.remove(index); }
        VecDiff::Move { old_index, new_index } => {
            if old_index >= n || new_index >= n { bad(&("Move", old_index, new_index)) }
            let x = v.remove(old_index);
            v.insert(new_index, x);
        }
        VecDiff::Push { value } => v.push(value),
        VecDiff::Pop {} => { if n == 0 { bad(&"Pop") } v.pop(); }
        VecDiff::Clear {} => v.clear(),
    }
}

pub fn apply_map<K: Ord + Debug, V: Debug>(m: &mut BTreeMap<K, V>, d: MapDiff<K, V>) {
    match d {
        MapDiff::Replace { entries } => {
            let n = entries.len();
            *m = entries.into_iter().collect();
            if m.len() != n { panic!("Replace with duplicate keys") }
        }
        MapDiff::Insert { key, value } => { if m.contains_key(&key) { panic!("Insert of the present key {:?}", key) } m.insert(key, value); }
        MapDiff::Update { key, value } => { if !m.contains_key(&key) { panic!("Update of the missing key {:?}", key) } m.insert(key, value); }
        MapDiff::Remove { key } => { if m.remove(&key).is_none() { panic!("Remove of the missing key {:?}", key) } }
        MapDiff::Clear {} => m.clear(),
    }
}

pub fn clone_diff<T: Clone>(d: &VecDiff<T>) -> VecDiff<T> { d.clone() }
