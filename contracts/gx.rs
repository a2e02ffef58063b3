#![feature(allocator_api)]
#![cfg_attr(verus_keep_ghost, verifier::loop_isolation(false))]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_unsafe, unreachable_code, non_shorthand_field_patterns, unused_assignments, path_statements, unused_must_use, non_snake_case)]
#[allow(unused_imports)]
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------------------------------------
// gx: ghost vocabulary, lemmas (proved here) and the trusted specifications of std items.
// Everything marked `axiom`, `assume_specification` or `external_body` is trusted and is listed
// in the evidence by a mechanical scan.
// ---------------------------------------------------------------------------------------------
pub mod gx {
use super::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::hash_map::Entry;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, BuildHasher};
use std::borrow::Borrow;
broadcast use vstd::std_specs::hash::group_hash_axioms;

global size_of usize == 8;

// ----- std::collections specifications (trusted) ---------------------------------------------

pub assume_specification<'a, K, V: Default>[ Entry::<'a, K, V>::or_default ](entry: Entry<'a, K, V>) -> (value: &'a mut V)
    ensures
        *value == (match entry.value() { Some(v) => v, None => *value }),
        entry.value() is None ==> call_ensures(V::default, (), *value),
        entry.final_value() == Some(*final(value)),
;

pub assume_specification<'a, Key: Borrow<Q> + Hash + Eq, Value, S: BuildHasher, A: std::alloc::Allocator, Q: Hash + Eq + ?Sized>
    [HashMap::<Key, Value, S, A>::get_mut](m: &'a mut HashMap<Key, Value, S, A>, k: &Q) -> (r: Option<&'a mut Value>)
    ensures
        obeys_key_model::<Key>() && builds_valid_hashers::<S>() ==> match r {
            Some(v) => exists|key: Key| #![trigger old(m)@.contains_key(key)] old(m)@.contains_key(key)
                && contains_borrowed_key(Map::<Key, Value>::empty().insert(key, *v), k)
                && *v == old(m)@[key] && final(m)@ == old(m)@.insert(key, *final(v)),
            None => !contains_borrowed_key(old(m)@, k) && final(m)@ == old(m)@,
        },
;

/// hash-table iterators are finite (vstd gives their termination measure only at creation)
pub broadcast axiom fn ax_map_iter_finite<V>(it: std::collections::hash_map::Iter<u64, V>)
    ensures #[trigger] it.decrease() is Some;
pub broadcast axiom fn ax_set_iter_finite(it: std::collections::hash_set::Iter<u64>)
    ensures #[trigger] it.decrease() is Some;

// ----- sequences of iterator items -------------------------------------------------------------

/// the keys yielded are pairwise different
pub open spec fn gx_uk<V>(s: Seq<(&u64, &V)>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && *s[i].0 == *s[j].0 ==> i == j
}
pub open spec fn gx_key<V>(s: Seq<(&u64, &V)>, c: u64) -> bool {
    exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == c
}
pub open spec fn gx_val<V>(s: Seq<(&u64, &V)>, c: u64) -> V {
    *s[choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == c].1
}
/// the finite map still to be yielded by a hash-map iterator
pub open spec fn gx_map<V>(s: Seq<(&u64, &V)>) -> IMap<u64, V> {
    IMap::new(|c: u64| gx_key(s, c), |c: u64| gx_val(s, c))
}
pub broadcast proof fn lemma_map_drop_first<V>(s: Seq<(&u64, &V)>)
    requires gx_uk(s), s.len() > 0
    ensures #![trigger s.drop_first()]
        gx_uk(s.drop_first()),
        gx_map(s).contains_pair(*s[0].0, *s[0].1),
        gx_map(s.drop_first()) =~= gx_map(s).remove(*s[0].0),
{
    let t = s.drop_first();
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && *t[i].0 == *t[j].0 implies i == j by {
        assert(t[i] == s[i+1]); assert(t[j] == s[j+1]);
    }
    assert(gx_key(s, *s[0].0));
    assert forall|c: u64| #![auto] gx_key(t, c) <==> gx_key(s, c) && c != *s[0].0 by {
        if gx_key(t, c) { let i = choose|i: int| 0 <= i < t.len() && *(#[trigger] t[i]).0 == c; assert(s[i+1] == t[i]); }
        if gx_key(s, c) && c != *s[0].0 { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == c; assert(t[i-1] == s[i]); }
    }
    assert forall|c: u64| gx_key(t, c) implies gx_val(t, c) == gx_val(s, c) by {
        let i = choose|i: int| 0 <= i < t.len() && *(#[trigger] t[i]).0 == c; assert(s[i+1] == t[i]);
    }
}
pub broadcast proof fn lemma_map_empty<V>(s: Seq<(&u64, &V)>)
    requires s.len() == 0
    ensures #[trigger] gx_map(s) =~= IMap::empty()
{}
pub broadcast proof fn lemma_map_iter<V>(s: Seq<(&u64, &V)>, m: Map<u64, V>)
    requires s.unref().to_set() == m.kv_pairs(), s.no_duplicates()
    ensures #![trigger s.unref().to_set(), m.kv_pairs()] gx_uk(s), gx_map(s) =~= m.to_imap()
{
    let u = s.unref();
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1 by {
        assert(u[i] == (*s[i].0, *s[i].1));
        assert(u.to_set().contains(u[i]));
        assert(m.kv_pairs().contains(u[i]));
    }
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && *s[i].0 == *s[j].0 implies i == j by {
        assert(*s[i].1 == *s[j].1);
        assert(s[i] == s[j]);
    }
    assert forall|c: u64| gx_key(s, c) <==> m.contains_key(c) by {
        if m.contains_key(c) {
            assert(m.kv_pairs().contains((c, m[c])));
            assert(u.contains((c, m[c])));
            let i = choose|i: int| 0 <= i < u.len() && u[i] == (c, m[c]);
            assert(*s[i].0 == c);
        }
    }
    assert forall|c: u64| gx_key(s, c) implies gx_val(s, c) == m[c] by {
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == c;
    }
}
pub broadcast proof fn lemma_set_drop_first<'a>(s: Seq<&'a u64>)
    requires s.no_duplicates(), s.len() > 0
    ensures #![trigger s.drop_first()]
        s.drop_first().no_duplicates(),
        forall|x: &'a u64| #[trigger] s.drop_first().contains(x) <==> s.contains(x) && x != s[0],
{
    let t = s.drop_first();
    assert forall|x: &'a u64| #[trigger] t.contains(x) <==> s.contains(x) && x != s[0] by {
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i + 1] == x); }
        if s.contains(x) && x != s[0] { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i - 1] == x); }
    }
}
pub broadcast proof fn lemma_set_iter<'a>(s: Seq<&'a u64>)
    ensures #![trigger s.unref().to_set()] forall|x: u64| #[trigger] s.contains(&x) <==> s.unref().to_set().contains(x),
{
    let t = s.unref();
    assert forall|x: u64| #[trigger] s.contains(&x) <==> t.contains(x) by {
        if s.contains(&x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == &x; assert(t[i] == x); }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == &x); }
    }
    assert forall|x: u64| t.contains(x) <==> t.to_set().contains(x) by { }
}

// ----- adjacency tables -----------------------------------------------------------------------

/// the cells of a column -> row-set table
pub open spec fn gx_cells(t: Map<u64, HashSet<u64>>) -> ISet<(u64, u64)> {
    ISet::new(|p: (u64, u64)| t.contains_key(p.0) && t[p.0]@.contains(p.1))
}

/// the entries of a column -> row -> value table
pub open spec fn gx_ents<T>(t: Map<u64, HashMap<u64, T>>) -> IMap<(u64, u64), T> {
    IMap::new(|p: (u64, u64)| t.contains_key(p.0) && t[p.0]@.contains_key(p.1), |p: (u64, u64)| t[p.0]@[p.1])
}
/// the same keys, every value multiplied
pub open spec fn gx_scaled(a: Map<u64, f64>, b: Map<u64, f64>, m: f64) -> bool {
    a.dom() == b.dom() && forall|r: u64| #[trigger] a.contains_key(r) ==> b[r] == a[r].ieee_mul(m)
}
/// the cells of one column, of one row
pub open spec fn gx_col(s: ISet<(u64, u64)>, c: u64) -> ISet<(u64, u64)> { ISet::new(|p: (u64, u64)| s.contains(p) && p.0 == c) }
pub open spec fn gx_row(s: ISet<(u64, u64)>, r: u64) -> ISet<(u64, u64)> { ISet::new(|p: (u64, u64)| s.contains(p) && p.1 == r) }
/// the cells (c, r) with r among the keys still to be yielded
pub open spec fn gx_colseq(c: u64, s: Seq<&u64>) -> ISet<(u64, u64)> { ISet::new(|p: (u64, u64)| p.0 == c && s.contains(&p.1)) }
/// the cells of row r in the columns still to be yielded
pub open spec fn gx_rowmap(m: IMap<u64, HashSet<u64>>, r: u64) -> ISet<(u64, u64)> {
    ISet::new(|p: (u64, u64)| p.1 == r && m.contains_key(p.0) && m[p.0]@.contains(r))
}
/// contains the reverse of each of its pairs
pub open spec fn gx_sym(s: ISet<(u64, u64)>) -> bool { forall|p: (u64, u64)| #[trigger] s.contains(p) ==> s.contains((p.1, p.0)) }
/// the vertices listed in an optional neighbour list
pub open spec fn gx_list(l: Option<&[u64]>) -> Seq<u64> { match l { Some(s) => s@, None => Seq::empty() } }
/// the edges between v and each vertex of the list that can exist (ids below 2^64 - 1)
pub open spec fn gx_star(v: u64, s: Seq<u64>, und: bool) -> ISet<(u64, u64)> {
    ISet::new(|p: (u64, u64)| p.0 < u64::MAX && p.1 < u64::MAX && ((p.0 == v && s.contains(p.1)) || (und && p.1 == v && s.contains(p.0))))
}
/// the vertex count d raised to hold v and each vertex of the list that can have an edge with it
pub open spec fn gx_star_dim(d: int, v: u64, s: Seq<u64>) -> int
    decreases s.len()
{
    if s.len() == 0 { d } else {
        gx_star_dim(if v < u64::MAX && s[0] < u64::MAX { gx_max(d, gx_max(v + 1, s[0] + 1)) } else { d }, v, s.drop_first())
    }
}
pub broadcast proof fn lemma_star_empty(v: u64, s: Seq<u64>, und: bool)
    requires s.len() == 0
    ensures #[trigger] gx_star(v, s, und) =~= ISet::empty()
{}
pub broadcast proof fn lemma_star_drop(v: u64, s: Seq<u64>, und: bool)
    requires s.len() > 0
    ensures #![trigger gx_star(v, s.drop_first(), und)]
        gx_star(v, s, und) =~= (if v == u64::MAX || s[0] == u64::MAX { gx_star(v, s.drop_first(), und) }
            else if und { gx_star(v, s.drop_first(), und).insert((v, s[0])).insert((s[0], v)) }
            else { gx_star(v, s.drop_first(), und).insert((v, s[0])) })
{
    let t = s.drop_first();
    assert forall|x: u64| #[trigger] s.contains(x) <==> t.contains(x) || x == s[0] by {
        if s.contains(x) && x != s[0] { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i - 1] == x); }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i + 1] == x); }
        assert(s.contains(s[0]));
    }
}
pub broadcast proof fn lemma_unref_drop<'a>(s: Seq<&'a u64>)
    requires s.len() > 0
    ensures #![trigger s.drop_first().unref()] s.drop_first().unref() =~= s.unref().drop_first(), s.unref()[0] == *s[0], s.unref().len() == s.len()
{}
/// the reverse of each pair
pub open spec fn gx_rev(s: ISet<(u64, u64)>) -> ISet<(u64, u64)> { ISet::new(|p: (u64, u64)| s.contains((p.1, p.0))) }
pub proof fn lemma_rev_len(s: ISet<(u64, u64)>)
    requires s.finite()
    ensures gx_rev(s).finite(), gx_rev(s).len() == s.len()
    decreases s.len()
{
    if s.len() == 0 { assert(gx_rev(s) =~= ISet::empty()); } else {
        let p = s.choose();
        lemma_rev_len(s.remove(p));
        assert(gx_rev(s) =~= gx_rev(s.remove(p)).insert((p.1, p.0)));
        assert(!gx_rev(s.remove(p)).contains((p.1, p.0)));
    }
}
pub proof fn lemma_sym_degree(s: ISet<(u64, u64)>, v: u64)
    requires s.finite(), gx_sym(s)
    ensures gx_col(s, v).len() == gx_row(s, v).len()
{
    lemma_subset_finite(gx_col(s, v), s);
    lemma_rev_len(gx_col(s, v));
    assert(gx_rev(gx_col(s, v)) =~= gx_row(s, v));
}
/// the cells of one column are as many as its set
pub open spec fn gx_colset(c: u64, s: Set<u64>) -> ISet<(u64, u64)> { ISet::new(|p: (u64, u64)| p.0 == c && s.contains(p.1)) }
pub proof fn lemma_colset_len(c: u64, s: Set<u64>)
    ensures gx_colset(c, s).finite(), gx_colset(c, s).len() == s.len()
    decreases s.len()
{
    if s.len() == 0 { assert(gx_colset(c, s) =~= ISet::empty()); } else {
        let x = s.choose();
        lemma_colset_len(c, s.remove(x));
        assert(gx_colset(c, s) =~= gx_colset(c, s.remove(x)).insert((c, x)));
        assert(!gx_colset(c, s.remove(x)).contains((c, x)));
    }
}
pub proof fn lemma_col_set(t: Map<u64, HashSet<u64>>, c: u64)
    requires t.contains_key(c)
    ensures gx_col(gx_cells(t), c).len() == t[c]@.len()
{
    lemma_colset_len(c, t[c]@);
    assert(gx_col(gx_cells(t), c) =~= gx_colset(c, t[c]@));
}
pub broadcast proof fn lemma_colseq_empty(c: u64, s: Seq<&u64>)
    requires s.len() == 0
    ensures #[trigger] gx_colseq(c, s) =~= ISet::empty()
{}
pub broadcast proof fn lemma_colseq_drop(c: u64, s: Seq<&u64>)
    requires s.no_duplicates(), s.len() > 0
    ensures #![trigger gx_colseq(c, s.drop_first())] gx_colseq(c, s).contains((c, *s[0])), gx_colseq(c, s.drop_first()) =~= gx_colseq(c, s).remove((c, *s[0]))
{
    lemma_set_drop_first(s);
    assert(s.contains(s[0]));
}
pub broadcast proof fn lemma_rowmap_empty(m: IMap<u64, HashSet<u64>>, r: u64)
    requires m == IMap::<u64, HashSet<u64>>::empty()
    ensures #[trigger] gx_rowmap(m, r) =~= ISet::empty()
{}
pub broadcast proof fn lemma_rowmap_drop(s: Seq<(&u64, &HashSet<u64>)>, r: u64)
    requires gx_uk(s), s.len() > 0
    ensures #![trigger gx_rowmap(gx_map(s.drop_first()), r)]
        gx_rowmap(gx_map(s.drop_first()), r) =~= gx_rowmap(gx_map(s), r).remove((*s[0].0, r)),
        gx_rowmap(gx_map(s), r).contains((*s[0].0, r)) <==> s[0].1@.contains(r),
{
    lemma_map_drop_first(s);
}
pub broadcast proof fn lemma_col_of(s: ISet<(u64, u64)>, c: u64)
    ensures (#[trigger] gx_col(s, c)).subset_of(s), s.finite() ==> gx_col(s, c).finite() && gx_col(s, c).len() <= s.len()
{ if s.finite() { lemma_subset_finite(gx_col(s, c), s); } }
pub broadcast proof fn lemma_row_of(s: ISet<(u64, u64)>, r: u64)
    ensures (#[trigger] gx_row(s, r)).subset_of(s), s.finite() ==> gx_row(s, r).finite() && gx_row(s, r).len() <= s.len()
{ if s.finite() { lemma_subset_finite(gx_row(s, r), s); } }
pub broadcast proof fn lemma_push<A>(s: Seq<A>, x: A)
    ensures #![trigger s.push(x)]
        forall|y: A| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x,
        s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates(),
{
    let t = s.push(x);
    assert forall|y: A| #[trigger] t.contains(y) <==> s.contains(y) || y == x by {
        if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; if i < s.len() { assert(s[i] == y); } }
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] == y); }
        if y == x { assert(t[s.len() as int] == y); }
    }
}
pub proof fn lemma_subset_finite<A>(a: ISet<A>, b: ISet<A>)
    requires a.subset_of(b), b.finite()
    ensures a.finite(), a.len() <= b.len()
{
    vstd::iset_lib::lemma_iset_subset_finite(b, a);
    vstd::iset_lib::lemma_len_subset(a, b);
}

// ----- 8x8 blocks ------------------------------------------------------------------------------

pub open spec fn gx_min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn gx_bit(e: u64, k: u64) -> bool { (e >> k) & 1 == 1 }
/// the number of ones among the n lowest bits
pub open spec fn gx_bits(e: u64, n: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { gx_bits(e, n - 1) + (if gx_bit(e, (n - 1) as u64) { 1nat } else { 0 }) } }
pub open spec fn gx_ones(e: u64) -> nat { gx_bits(e, 64) }
// not used by the tree as it is; here for edits that use them
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification [u64::div_ceil] (x: u64, y: u64) -> (r: u64)
    requires y != 0
    ensures r == x / y + (if x % y == 0 { 0int } else { 1 });
pub assume_specification<T> [core::mem::drop] (x: T);
pub assume_specification [f64::clamp] (x: f64, lo: f64, hi: f64) -> (r: f64)
    requires lo.ieee_le(hi)
    ensures r == (if x.ieee_lt(lo) { lo } else if x.ieee_gt(hi) { hi } else { x });
pub assume_specification [f64::max] (x: f64, y: f64) -> (r: f64)
    ensures x.ieee_lt(y) ==> r == y, x.ieee_gt(y) ==> r == x, !gx_nn(x) ==> r == y, !gx_nn(y) ==> r == x, r == x || r == y;
pub assume_specification [f64::min] (x: f64, y: f64) -> (r: f64)
    ensures x.ieee_lt(y) ==> r == x, x.ieee_gt(y) ==> r == y, !gx_nn(x) ==> r == y, !gx_nn(y) ==> r == x, r == x || r == y;
pub assume_specification<'a, K, S, A: std::alloc::Allocator> [<&'a HashSet<K, S, A> as IntoIterator>::into_iter] (m: &'a HashSet<K, S, A>) -> (r: std::collections::hash_set::Iter<'a, K>)
    ensures call_ensures(HashSet::<K, S, A>::iter, (m,), r);
pub assume_specification<'a, K, V, S, A: std::alloc::Allocator> [<&'a HashMap<K, V, S, A> as IntoIterator>::into_iter] (m: &'a HashMap<K, V, S, A>) -> (r: std::collections::hash_map::Iter<'a, K, V>)
    ensures call_ensures(HashMap::<K, V, S, A>::iter, (m,), r);
pub assume_specification<K: Clone, S: Clone, A: std::alloc::Allocator + Clone> [<HashSet<K, S, A> as Clone>::clone] (m: &HashSet<K, S, A>) -> (r: HashSet<K, S, A>)
    ensures r@ == m@;
/// the number types are copied
pub broadcast axiom fn axiom_num_cloned<T: crate::util::Numeric>(a: T, b: T)
    requires #[trigger] vstd::pervasive::cloned::<T>(a, b)
    ensures a == b;
pub assume_specification<T> [core::hint::black_box] (x: T) -> (r: T)
    ensures r == x;
pub assume_specification [u64::count_ones] (x: u64) -> (r: u32)
    ensures r == gx_ones(x);
#[verifier::reject_recursive_types(T)]
#[verifier::external_type_specification]
pub struct ExWrapping<T>(std::num::Wrapping<T>);
#[verifier::external_body]
pub fn gx_wrapping_shl(w: std::num::Wrapping<u64>, n: usize) -> (r: std::num::Wrapping<u64>)
    ensures n < 64 ==> r.0 == w.0 << (n as u64)
{ w << n }
/// the dimension of the block matrix of a graph of v vertices
pub open spec fn gx_cdim(v: u64) -> u64 { if v == 0 { 1 } else { ((v - 1) / 8 + 1) as u64 } }
pub open spec fn gx_block_at(b: IMap<(u64, u64), u64>, col: u64, row: u64) -> u64 { if b.contains_key((col, row)) { b[(col, row)] } else { 0 } }
/// the mirrored position inside a block
pub open spec fn gx_tr(k: u64) -> u64 { (8 * (k % 8) + k / 8) as u64 }
pub broadcast proof fn lemma_bit_zero(e: u64, k: u64)
    ensures e == 0 ==> !#[trigger] gx_bit(e, k)
{ assert(e == 0 ==> (e >> k) & 1 == 0) by (bit_vector); }
pub proof fn lemma_bit_and(e: u64, k: u64)
    requires k < 64
    ensures (e & (1u64 << k)) == (1u64 << k) <==> gx_bit(e, k), ((e >> k) & 1 == 0) == !gx_bit(e, k), ((e & (1u64 << k)) != 0) <==> gx_bit(e, k),
        k < 63 ==> (1u64 << k) << 1u64 == 1u64 << ((k + 1) as u64), 1u64 << 0u64 == 1, 1u64 << 63u64 == 0x8000000000000000,
        k < 63 ==> (1u64 << k) != 0x8000000000000000,
{
    assert(k < 64 ==> ((e & (1u64 << k)) == (1u64 << k) <==> (e >> k) & 1 == 1)) by (bit_vector);
    assert(k < 64 ==> ((e & (1u64 << k)) != 0 <==> (e >> k) & 1 == 1)) by (bit_vector);
    assert((e >> k) & 1 == 0 || (e >> k) & 1 == 1) by (bit_vector);
    assert(k < 63 ==> (1u64 << k) << 1u64 == 1u64 << add(k, 1)) by (bit_vector);
    assert(k < 63 ==> (1u64 << k) != 0x8000000000000000) by (bit_vector);
    assert(1u64 << 0u64 == 1) by (bit_vector);
    assert(1u64 << 63u64 == 0x8000000000000000) by (bit_vector);
}
/// what masks and shifts say, for edits that use them
pub broadcast proof fn lemma_mask(e: u64, k: u64)
    requires k < 64
    ensures ((#[trigger] (e & (1u64 << k))) != 0) == gx_bit(e, k), (e & (1u64 << k)) == (1u64 << k) <==> gx_bit(e, k)
{ lemma_bit_and(e, k); }
pub broadcast proof fn lemma_shift_mask(e: u64, k: u64)
    ensures ((#[trigger] ((e >> k) & 1)) != 0) == gx_bit(e, k), ((e >> k) & 1) == 0 || ((e >> k) & 1) == 1
{ assert((e >> k) & 1 == 0 || (e >> k) & 1 == 1) by (bit_vector); }
pub broadcast proof fn lemma_shr3(e: u64)
    ensures #[trigger] (e >> 3u64) == e / 8
{ assert(e >> 3u64 == e / 8) by (bit_vector); }
pub broadcast proof fn lemma_shr6(e: u64)
    ensures #[trigger] (e >> 6u64) == e / 64
{ assert(e >> 6u64 == e / 64) by (bit_vector); }
pub broadcast proof fn lemma_and7(e: u64)
    ensures #[trigger] (e & 7u64) == e % 8
{ assert(e & 7u64 == e % 8) by (bit_vector); }
pub broadcast proof fn lemma_and63(e: u64)
    ensures #[trigger] (e & 63u64) == e % 64
{ assert(e & 63u64 == e % 64) by (bit_vector); }
pub broadcast proof fn lemma_shl3(e: u64)
    requires e <= 0x1fff_ffff_ffff_ffff
    ensures #[trigger] (e << 3u64) == e * 8
{ assert(e <= 0x1fff_ffff_ffff_ffff ==> e << 3u64 == mul(e, 8) && e * 8 <= 0xffff_ffff_ffff_ffff) by (bit_vector); }
pub proof fn lemma_bit_set(x: u64, b: u64)
    requires b < 64
    ensures forall|k: u64| k < 64 ==> #[trigger] gx_bit(x | (1u64 << b), k) == (gx_bit(x, k) || k == b)
{
    assert forall|k: u64| k < 64 implies #[trigger] gx_bit(x | (1u64 << b), k) == (gx_bit(x, k) || k == b) by {
        assert(k < 64 && b < 64 ==> (((x | (1u64 << b)) >> k) & 1 == 1 <==> ((x >> k) & 1 == 1 || k == b))) by (bit_vector);
    }
}
/// the position of an edge inside its block
pub open spec fn gx_pos(p: (u64, u64)) -> u64 { (8 * (p.1 % 8) + p.0 % 8) as u64 }
/// the edges recorded by a set of blocks
pub open spec fn gx_bedges(b: IMap<(u64, u64), u64>) -> ISet<(u64, u64)> {
    ISet::new(|p: (u64, u64)| b.contains_key((p.0 / 8, p.1 / 8)) && gx_bit(b[(p.0 / 8, p.1 / 8)], gx_pos(p)))
}

// ----- average pooling -------------------------------------------------------------------------

/// the edges in one block
pub open spec fn gx_block(s: ISet<(u64, u64)>, b: u64, q: (u64, u64)) -> ISet<(u64, u64)> {
    ISet::new(|p: (u64, u64)| s.contains(p) && p.0 / b == q.0 && p.1 / b == q.1)
}
/// the number of edges of each block that has any
pub open spec fn gx_counts(s: ISet<(u64, u64)>, b: u64) -> IMap<(u64, u64), f64> {
    IMap::new(|q: (u64, u64)| gx_block(s, b, q).len() > 0, |q: (u64, u64)| fl(gx_block(s, b, q).len() as u64))
}
/// the block dimension in use: at least one, at most the number of vertices
pub open spec fn gx_bd(b: u64, v: u64) -> u64 { if b < 1 { 1 } else if b > v { v } else { b } }
/// the number of blocks per row
pub open spec fn gx_blocks(v: u64, b: u64) -> int { (v + b - 1) / (b as int) }
/// one over the area of a full block
pub open spec fn gx_per_area(b: u64) -> f64 { 1.0f64.ieee_div(fl(b).ieee_mul(fl(b))) }
/// the density of the edges of one block
pub open spec fn gx_density(s: ISet<(u64, u64)>, b: u64, q: (u64, u64)) -> f64 { fl(gx_block(s, b, q).len() as u64).ieee_mul(gx_per_area(b)) }
/// the threshold in use
pub open spec fn gx_threshold(t: f64) -> f64 {
    if t.ieee_gt(1.0f64) { 1.0f64 } else if t.ieee_lt(1.0f64.ieee_div(fl(1000000000000000000u64))) { 1.0f64.ieee_div(fl(1000000000000000000u64)) } else { t }
}
/// the blocks with an edge whose density is at least t
pub open spec fn gx_dense(s: ISet<(u64, u64)>, b: u64, t: f64) -> ISet<(u64, u64)> {
    ISet::new(|q: (u64, u64)| gx_block(s, b, q).len() > 0 && gx_density(s, b, q).ieee_ge(t))
}
pub proof fn lemma_block_finite(s: ISet<(u64, u64)>, b: u64, q: (u64, u64))
    requires s.finite()
    ensures gx_block(s, b, q).finite(), gx_block(s, b, q).len() <= s.len()
{ lemma_subset_finite(gx_block(s, b, q), s); }
pub proof fn lemma_counts_empty(b: u64)
    ensures gx_counts(ISet::empty(), b) =~= IMap::empty()
{
    assert forall|q: (u64, u64)| gx_block(ISet::empty(), b, q).len() == 0 by { assert(gx_block(ISet::empty(), b, q) =~= ISet::empty()); }
}
pub proof fn lemma_counts_insert(s: ISet<(u64, u64)>, b: u64, p: (u64, u64))
    requires s.finite(), s.len() < 0x20_0000_0000_0000, !s.contains(p), b > 0
    ensures
        ({ let q = (p.0 / b, p.1 / b);
           let v = if gx_counts(s, b).contains_key(q) { gx_counts(s, b)[q].ieee_add(1.0f64) } else { 1.0f64 };
           gx_counts(s.insert(p), b) =~= gx_counts(s, b).insert(q, v) && !v.ieee_eq(0.0f64) }),
{
    let q = (p.0 / b, p.1 / b);
    let t = s.insert(p);
    assert forall|x: (u64, u64)| x != q implies #[trigger] gx_block(t, b, x) == gx_block(s, b, x) by { assert(gx_block(t, b, x) =~= gx_block(s, b, x)); }
    assert(gx_block(t, b, q) =~= gx_block(s, b, q).insert(p));
    lemma_block_finite(s, b, q);
    lemma_fl_one();
    lemma_fl_next(gx_block(s, b, q).len() as u64);
    lemma_fl_pos(gx_block(t, b, q).len() as u64);
}
pub proof fn lemma_dense_sym(s: ISet<(u64, u64)>, b: u64, t: f64)
    requires s.finite(), gx_sym(s)
    ensures gx_sym(gx_dense(s, b, t))
{
    assert forall|q: (u64, u64)| #[trigger] gx_dense(s, b, t).contains(q) implies gx_dense(s, b, t).contains((q.1, q.0)) by {
        lemma_block_finite(s, b, q);
        lemma_rev_len(gx_block(s, b, q));
        assert(gx_rev(gx_block(s, b, q)) =~= gx_block(s, b, (q.1, q.0)));
    }
}
/// dividing by a block dimension
pub proof fn lemma_div_blocks(x: u64, v: u64, b: u64)
    requires x < v, 0 < b
    ensures x / b < gx_blocks(v, b), gx_blocks(v, b) == v / b + (if v % b == 0 { 0int } else { 1int }), 1 <= gx_blocks(v, b) <= v, 
{
    let (xi, vi, bi) = (x as int, v as int, b as int);
    assert(xi / bi < (vi + bi - 1) / bi) by (nonlinear_arith) requires xi < vi, 0 < bi, 0 <= xi {
        assert(xi / bi + 1 == (xi + bi) / bi);
    }
    assert((vi + bi - 1) / bi == vi / bi + (if vi % bi == 0 { 0int } else { 1int })) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(vi, bi);
        let (d, m) = (vi / bi, vi % bi);
        if m == 0 {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(vi + bi - 1, bi, d, bi - 1);
        } else {
            assert(vi + bi - 1 == bi * (d + 1) + (m - 1)) by (nonlinear_arith) requires vi == bi * d + m;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(vi + bi - 1, bi, d + 1, m - 1);
        }
    }
    assert((vi + bi - 1) / bi <= vi) by (nonlinear_arith) requires vi >= 1, bi >= 1;
}

// ----- compression -----------------------------------------------------------------------------

/// the edges of the blocks that have at least l edges
pub open spec fn gx_kept(s: ISet<(u64, u64)>, l: int) -> ISet<(u64, u64)> {
    ISet::new(|p: (u64, u64)| s.contains(p) && gx_block(s, 8, (p.0 / 8, p.1 / 8)).len() >= l)
}
/// the edge at position k of block q
pub open spec fn gx_at(q: (u64, u64), k: u64) -> (u64, u64) { ((q.0 * 8 + k % 8) as u64, (q.1 * 8 + k / 8) as u64) }
/// e records exactly the edges of block q
pub open spec fn gx_records(s: ISet<(u64, u64)>, q: (u64, u64), e: u64) -> bool {
    forall|k: u64| k < 64 ==> #[trigger] gx_bit(e, k) == s.contains(gx_at(q, k))
}
/// the edges of block q recorded by the n lowest bits of e
pub open spec fn gx_bset(e: u64, q: (u64, u64), n: int) -> ISet<(u64, u64)> {
    ISet::new(|p: (u64, u64)| p.0 / 8 == q.0 && p.1 / 8 == q.1 && gx_pos(p) < n && gx_bit(e, gx_pos(p)))
}
pub proof fn lemma_bits_set(e: u64, i: u64, n: int)
    requires n <= i < 64
    ensures gx_bits(e | (1u64 << i), n) == gx_bits(e, n)
    decreases n
{
    if n > 0 { lemma_bits_set(e, i, n - 1); lemma_bit_set(e, i); assert(gx_bit(e | (1u64 << i), (n - 1) as u64) == gx_bit(e, (n - 1) as u64)); }
}
pub proof fn lemma_bset_len(e: u64, q: (u64, u64), n: int)
    requires 0 <= n <= 64, q.0 < 0x2000_0000_0000_0000, q.1 < 0x2000_0000_0000_0000
    ensures gx_bset(e, q, n).finite(), gx_bset(e, q, n).len() == gx_bits(e, n), gx_bits(e, n) <= n
    decreases n
{
    if n == 0 { assert(gx_bset(e, q, n) =~= ISet::empty()); } else {
        lemma_bset_len(e, q, n - 1);
        let p = gx_at(q, (n - 1) as u64);
        assert(p.0 / 8 == q.0 && p.1 / 8 == q.1 && gx_pos(p) == n - 1);
        assert forall|x: (u64, u64)| x.0 / 8 == q.0 && x.1 / 8 == q.1 && #[trigger] gx_pos(x) == n - 1 implies x == p by {}
        if gx_bit(e, (n - 1) as u64) { assert(gx_bset(e, q, n) =~= gx_bset(e, q, n - 1).insert(p)); }
        else { assert(gx_bset(e, q, n) =~= gx_bset(e, q, n - 1)); }
    }
}
pub proof fn lemma_bedges_empty()
    ensures gx_bedges(IMap::empty()) =~= ISet::empty()
{}
/// recording one more block
pub proof fn lemma_bedges_insert(b: IMap<(u64, u64), u64>, q: (u64, u64), e: u64)
    requires !b.contains_key(q), q.0 < 0x2000_0000_0000_0000, q.1 < 0x2000_0000_0000_0000, gx_bedges(b).finite()
    ensures gx_bedges(b.insert(q, e)).finite(), gx_bedges(b.insert(q, e)).len() == gx_bedges(b).len() + gx_ones(e)
{
    let x = gx_bset(e, q, 64);
    lemma_bset_len(e, q, 64);
    assert(forall|p: (u64, u64)| #[trigger] gx_pos(p) < 64);
    assert(gx_bedges(b.insert(q, e)) =~= gx_bedges(b).union(x));
    assert(gx_bedges(b).disjoint(x));
    vstd::iset_lib::lemma_iset_disjoint_lens(gx_bedges(b), x);
}
pub open spec fn gx_rect(a: int, w: int, b: int, h: int) -> ISet<(u64, u64)> {
    ISet::new(|p: (u64, u64)| a <= p.0 < a + w && b <= p.1 < b + h)
}
pub proof fn lemma_rect(a: int, w: int, b: int, h: int)
    requires w >= 0, h >= 0
    ensures gx_rect(a, w, b, h).finite(), gx_rect(a, w, b, h).len() <= w * h
    decreases w, h
{
    if w == 0 || h == 0 { assert(gx_rect(a, w, b, h) =~= ISet::empty()); assert(w * h == 0) by (nonlinear_arith) requires w == 0 || h == 0; }
    else if w == 1 {
        lemma_rect(a, 1, b, h - 1);
        let p = (a as u64, (b + h - 1) as u64);
        assert(gx_rect(a, 1, b, h).subset_of(gx_rect(a, 1, b, h - 1).insert(p)));
        lemma_subset_finite(gx_rect(a, 1, b, h), gx_rect(a, 1, b, h - 1).insert(p));
    } else {
        lemma_rect(a, w - 1, b, h);
        lemma_rect(a + w - 1, 1, b, h);
        let (x, y) = (gx_rect(a, w - 1, b, h), gx_rect(a + w - 1, 1, b, h));
        assert(gx_rect(a, w, b, h) =~= x.union(y));
        assert(x.disjoint(y));
        vstd::iset_lib::lemma_iset_disjoint_lens(x, y);
        assert((w - 1) * h + 1 * h == w * h) by (nonlinear_arith);
    }
}
/// a block holds at most the square of its dimension
pub proof fn lemma_block_max(s: ISet<(u64, u64)>, b: u64, q: (u64, u64))
    requires s.finite(), b > 0
    ensures gx_block(s, b, q).len() <= b * b
{
    lemma_rect(q.0 * b, b as int, q.1 * b, b as int);
    assert forall|p: (u64, u64)| #[trigger] gx_block(s, b, q).contains(p) implies gx_rect(q.0 * b, b as int, q.1 * b, b as int).contains(p) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p.0 as int, b as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p.1 as int, b as int);
        assert(b * (p.0 / b) == q.0 * b && b * (p.1 / b) == q.1 * b) by (nonlinear_arith) requires p.0 / b == q.0, p.1 / b == q.1;
    }
    lemma_subset_finite(gx_block(s, b, q), gx_rect(q.0 * b, b as int, q.1 * b, b as int));
}
/// on a graph smaller than a block the only block holds everything
pub proof fn lemma_small(s: ISet<(u64, u64)>, v: u64)
    requires 1 <= v, forall|p: (u64, u64)| #[trigger] s.contains(p) ==> p.0 < v && p.1 < v
    ensures forall|q: (u64, u64)| #![trigger gx_block(s, gx_bd(8, v), q)] #![trigger gx_block(s, 8, q)] gx_block(s, gx_bd(8, v), q) == gx_block(s, 8, q)
{
    assert forall|q: (u64, u64)| #[trigger] gx_block(s, gx_bd(8, v), q) == gx_block(s, 8, q) by {
        if v < 8 {
            assert forall|x: u64| x < v implies #[trigger] (x / v) == 0 && x / 8 == 0 by { vstd::arithmetic::div_mod::lemma_basic_div(x as int, v as int); }
            assert(gx_block(s, v, q) =~= gx_block(s, 8, q));
        }
    }
}
pub proof fn lemma_kept_sym(s: ISet<(u64, u64)>, l: int)
    requires s.finite(), gx_sym(s)
    ensures gx_sym(gx_kept(s, l))
{
    assert forall|p: (u64, u64)| #[trigger] gx_kept(s, l).contains(p) implies gx_kept(s, l).contains((p.1, p.0)) by {
        let q = (p.0 / 8, p.1 / 8);
        lemma_block_finite(s, 8, q);
        lemma_rev_len(gx_block(s, 8, q));
        assert(gx_rev(gx_block(s, 8, q)) =~= gx_block(s, 8, (q.1, q.0)));
    }
}
/// a block with an edge lies inside the block matrix
pub proof fn lemma_block_inside(s: ISet<(u64, u64)>, v: u64, q: (u64, u64))
    requires s.finite(), forall|p: (u64, u64)| #[trigger] s.contains(p) ==> p.0 < v && p.1 < v, gx_block(s, 8, q).len() > 0
    ensures q.0 < gx_cdim(v), q.1 < gx_cdim(v), gx_cdim(v) <= 0x2000_0000_0000_0000
{
    lemma_block_finite(s, 8, q);
    let p = gx_block(s, 8, q).choose();
    assert(gx_block(s, 8, q).contains(p));
}
/// recording one more block of edges
pub proof fn lemma_recording(s: ISet<(u64, u64)>, b: IMap<(u64, u64), u64>, q: (u64, u64), e: u64)
    requires s.finite(), gx_block(s, 8, q).len() > 0, gx_records(s, q, e),
        forall|x: (u64, u64)| #[trigger] b.contains_key(x) ==> gx_records(s, x, b[x]),
    ensures e != 0, gx_bedges(b.insert(q, e)).subset_of(s), gx_bedges(b.insert(q, e)).finite(), gx_bedges(b.insert(q, e)).len() <= s.len()
{
    lemma_block_finite(s, 8, q);
    let p = gx_block(s, 8, q).choose();
    assert(gx_block(s, 8, q).contains(p));
    assert(gx_at(q, gx_pos(p)) == p && gx_pos(p) < 64);
    assert(gx_bit(e, gx_pos(p)));
    lemma_bit_zero(e, gx_pos(p));
    let n = b.insert(q, e);
    assert forall|p: (u64, u64)| #[trigger] gx_bedges(n).contains(p) implies s.contains(p) by {
        let x = (p.0 / 8, p.1 / 8);
        assert(gx_at(x, gx_pos(p)) == p && gx_pos(p) < 64);
        assert(gx_bit(n[x], gx_pos(p)));
        if x != q { assert(b.contains_key(x)); }
    }
    lemma_subset_finite(gx_bedges(n), s);
}
/// blocks that are recorded bit for bit hold the kept edges
pub proof fn lemma_recorded(s: ISet<(u64, u64)>, b: IMap<(u64, u64), u64>, l: int)
    requires s.finite(), l >= 1,
        forall|q: (u64, u64)| #[trigger] b.contains_key(q) <==> gx_block(s, 8, q).len() >= l,
        forall|q: (u64, u64)| #[trigger] b.contains_key(q) ==> gx_records(s, q, b[q]),
    ensures gx_bedges(b) =~= gx_kept(s, l), l == 1 ==> gx_kept(s, l) =~= s
{
    assert forall|p: (u64, u64)| gx_bedges(b).contains(p) == #[trigger] gx_kept(s, l).contains(p) by {
        let q = (p.0 / 8, p.1 / 8);
        assert(gx_at(q, gx_pos(p)) == p && gx_pos(p) < 64);
        assert(b.contains_key(q) ==> gx_bit(b[q], gx_pos(p)) == s.contains(p));
    }
    if l == 1 {
        assert forall|p: (u64, u64)| s.contains(p) implies gx_kept(s, l).contains(p) by {
            let q = (p.0 / 8, p.1 / 8);
            lemma_block_finite(s, 8, q);
            assert(gx_block(s, 8, q).contains(p));
            if gx_block(s, 8, q).len() == 0 { assert(gx_block(s, 8, q) =~= ISet::empty()); }
        }
    }
}

pub assume_specification [<u8 as From<bool>>::from] (b: bool) -> (r: u8)
    ensures r == (if b { 1u8 } else { 0u8 });
pub assume_specification [<u16 as From<bool>>::from] (b: bool) -> (r: u16)
    ensures r == (if b { 1u16 } else { 0u16 });
pub assume_specification [<u32 as From<bool>>::from] (b: bool) -> (r: u32)
    ensures r == (if b { 1u32 } else { 0u32 });
pub assume_specification [<u64 as From<bool>>::from] (b: bool) -> (r: u64)
    ensures r == (if b { 1u64 } else { 0u64 });
pub assume_specification [<u128 as From<bool>>::from] (b: bool) -> (r: u128)
    ensures r == (if b { 1u128 } else { 0u128 });
pub assume_specification [<usize as From<bool>>::from] (b: bool) -> (r: usize)
    ensures r == (if b { 1usize } else { 0usize });
pub assume_specification [<i8 as From<bool>>::from] (b: bool) -> (r: i8)
    ensures r == (if b { 1i8 } else { 0i8 });
pub assume_specification [<i16 as From<bool>>::from] (b: bool) -> (r: i16)
    ensures r == (if b { 1i16 } else { 0i16 });
pub assume_specification [<i32 as From<bool>>::from] (b: bool) -> (r: i32)
    ensures r == (if b { 1i32 } else { 0i32 });
pub assume_specification [<i64 as From<bool>>::from] (b: bool) -> (r: i64)
    ensures r == (if b { 1i64 } else { 0i64 });
pub assume_specification [<i128 as From<bool>>::from] (b: bool) -> (r: i128)
    ensures r == (if b { 1i128 } else { 0i128 });
pub assume_specification [<isize as From<bool>>::from] (b: bool) -> (r: isize)
    ensures r == (if b { 1isize } else { 0isize });
pub assume_specification [<i128 as From<u8>>::from] (b: u8) -> (r: i128)
    ensures r == b as i128;
pub assume_specification [<i128 as From<u32>>::from] (b: u32) -> (r: i128)
    ensures r == b as i128;
pub assume_specification [<i128 as From<u64>>::from] (b: u64) -> (r: i128)
    ensures r == b as i128;

// ----- bytes -----------------------------------------------------------------------------------

/// the number written in these big-endian bytes
pub open spec fn gx_be(b: Seq<u8>) -> int
    decreases b.len()
{ if b.len() == 0 { 0 } else { gx_be(b.drop_last()) * 256 + b.last() } }
/// the k big-endian bytes of n
pub open spec fn gx_to_be(n: int, k: nat) -> Seq<u8>
    decreases k
{ if k == 0 { Seq::empty() } else { gx_to_be(n / 256, (k - 1) as nat).push((n % 256) as u8) } }
pub proof fn lemma_be_to(n: int, k: nat)
    requires 0 <= n < vstd::arithmetic::power::pow(256, k)
    ensures gx_to_be(n, k).len() == k, gx_be(gx_to_be(n, k)) == n
    decreases k
{
    reveal(vstd::arithmetic::power::pow);
    if k > 0 {
        assert(n / 256 < vstd::arithmetic::power::pow(256, (k - 1) as nat)) by (nonlinear_arith)
            requires n < 256 * vstd::arithmetic::power::pow(256, (k - 1) as nat);
        lemma_be_to(n / 256, (k - 1) as nat);
        assert(gx_to_be(n, k).drop_last() =~= gx_to_be(n / 256, (k - 1) as nat));
    }
}
pub broadcast proof fn lemma_be64(n: u64)
    ensures #![trigger gx_to_be(n as int, 8)] gx_to_be(n as int, 8).len() == 8, gx_be(gx_to_be(n as int, 8)) == n
{ assert(vstd::arithmetic::power::pow(256, 8) == 0x1_0000_0000_0000_0000) by (compute); lemma_be_to(n as int, 8); }
pub broadcast proof fn lemma_be32(n: u32)
    ensures #![trigger gx_to_be(n as int, 4)] gx_to_be(n as int, 4).len() == 4, gx_be(gx_to_be(n as int, 4)) == n
{ assert(vstd::arithmetic::power::pow(256, 4) == 0x1_0000_0000) by (compute); lemma_be_to(n as int, 4); }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
pub assume_specification<'a, T: Copy, const N: usize> [ <[T; N] as TryFrom<&[T]>>::try_from ] (s: &[T]) -> (r: Result<[T; N], std::array::TryFromSliceError>)
    ensures r is Ok <==> s@.len() == N, r matches Ok(a) ==> a@ == s@;
#[verifier::external_body]
pub fn gx_u32_from_be_bytes(b: [u8; 4]) -> (r: u32)
    ensures r == gx_be(b@)
{ u32::from_be_bytes(b) }
#[verifier::external_body]
pub fn gx_u64_from_be_bytes(b: [u8; 8]) -> (r: u64)
    ensures r == gx_be(b@)
{ u64::from_be_bytes(b) }
pub trait GxToBe<const N: usize>: Sized {
    spec fn gx_n(self) -> int;
    fn gx_to_be_bytes(self) -> (r: [u8; N])
        ensures r@ == gx_to_be(self.gx_n(), N as nat);
}
impl GxToBe<4> for u32 {
    open spec fn gx_n(self) -> int { self as int }
    #[verifier::external_body]
    fn gx_to_be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
}
impl GxToBe<8> for u64 {
    open spec fn gx_n(self) -> int { self as int }
    #[verifier::external_body]
    fn gx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
}
/// the number in the n bytes from position i
pub open spec fn gx_num(b: Seq<u8>, i: int, n: int) -> int { gx_be(b.subrange(i, i + n)) }

// the format of graph bytes
pub open spec fn gx_graph_header(dim: u64, count: u64, und: bool) -> Seq<u8> {
    gx_to_be(0x7ae71ffdu32 as int, 4) + gx_to_be(1u32 as int, 4) + gx_to_be(dim as int, 8) + gx_to_be(count as int, 8) + seq![if und { 1u8 } else { 0u8 }, 0u8]
}
pub open spec fn gx_pair_bytes(p: (u64, u64)) -> Seq<u8> { gx_to_be(p.0 as int, 8) + gx_to_be(p.1 as int, 8) }
pub open spec fn gx_pairs_bytes(s: Seq<(u64, u64)>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { gx_pairs_bytes(s.drop_last()) + gx_pair_bytes(s.last()) } }
/// s lists the elements of t, each once
pub open spec fn gx_lists(s: Seq<(u64, u64)>, t: ISet<(u64, u64)>) -> bool {
    s.no_duplicates() && forall|p: (u64, u64)| #[trigger] s.contains(p) <==> t.contains(p)
}
pub proof fn lemma_lists_len(s: Seq<(u64, u64)>, t: ISet<(u64, u64)>)
    requires gx_lists(s, t)
    ensures t.finite(), t.len() == s.len()
    decreases s.len()
{
    if s.len() == 0 {
        assert forall|p: (u64, u64)| !t.contains(p) by { assert(!s.contains(p)); }
        assert(t =~= ISet::empty());
    } else {
        let (d, l) = (s.drop_last(), s.last());
        assert(s =~= d.push(l));
        lemma_push(d, l);
        assert(!d.contains(l)) by { if d.contains(l) { let i = choose|i: int| 0 <= i < d.len() && d[i] == l; assert(s[i] == s[s.len() - 1]); } }
        assert(d.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(s[i] != s[j]); } }
        assert(gx_lists(d, t.remove(l))) by {
            assert forall|p: (u64, u64)| #[trigger] d.contains(p) <==> t.remove(l).contains(p) by { assert(s.contains(p) <==> d.contains(p) || p == l); }
        }
        lemma_lists_len(d, t.remove(l));
        assert(t =~= t.remove(l).insert(l)) by { assert(s.contains(l)); }
    }
}
/// b are the bytes of a graph
pub open spec fn gx_graph_bytes(b: Seq<u8>, und: bool, verts: u64, edges: ISet<(u64, u64)>) -> bool {
    exists|s: Seq<(u64, u64)>| #[trigger] gx_lists(s, edges) && s.len() <= u64::MAX && b == gx_graph_header(verts, s.len() as u64, und) + gx_pairs_bytes(s)
}
/// the edge listed at position i
pub open spec fn gx_pair_at(b: Seq<u8>, i: int) -> (u64, u64) { (gx_num(b, 26 + 16 * i, 8) as u64, gx_num(b, 26 + 16 * i + 8, 8) as u64) }
pub open spec fn gx_listed(b: Seq<u8>, n: int) -> ISet<(u64, u64)> { ISet::new(|p: (u64, u64)| exists|i: int| 0 <= i < n && #[trigger] gx_pair_at(b, i) == p) }
/// the edges, with their reverse edges if undirected
pub open spec fn gx_closed(s: ISet<(u64, u64)>, und: bool) -> ISet<(u64, u64)> { if und { s.union(gx_rev(s)) } else { s } }
/// these bytes describe a graph
pub open spec fn gx_graph_valid(b: Seq<u8>) -> bool {
    &&& b.len() >= 26
    &&& gx_num(b, 0, 4) == 0x7ae71ffd
    &&& gx_num(b, 4, 4) == 1
    &&& b[24] <= 1
    &&& b[25] == 0
    &&& b.len() == 26 + 16 * gx_num(b, 16, 8)
    &&& forall|i: int| 0 <= i < gx_num(b, 16, 8) ==> (#[trigger] gx_pair_at(b, i)).0 < gx_num(b, 8, 8) && gx_pair_at(b, i).1 < gx_num(b, 8, 8)
    &&& gx_closed(gx_listed(b, gx_num(b, 16, 8)), b[24] == 1).len() == gx_num(b, 16, 8)
}

// reading back the bytes of a graph
pub proof fn lemma_num_at(a: Seq<u8>, m: Seq<u8>, z: Seq<u8>, i: int, n: int)
    requires i == a.len(), n == m.len()
    ensures gx_num(a + m + z, i, n) == gx_be(m)
{ assert((a + m + z).subrange(i, i + n) =~= m); }
pub proof fn lemma_num_prefix(a: Seq<u8>, z: Seq<u8>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= a.len()
    ensures gx_num(a + z, i, n) == gx_num(a, i, n)
{ assert((a + z).subrange(i, i + n) =~= a.subrange(i, i + n)); }
pub proof fn lemma_graph_header(dim: u64, count: u64, und: bool)
    ensures ({ let h = gx_graph_header(dim, count, und);
        h.len() == 26 && gx_num(h, 0, 4) == 0x7ae71ffd && gx_num(h, 4, 4) == 1 && gx_num(h, 8, 8) == dim && gx_num(h, 16, 8) == count && h[24] == (if und { 1u8 } else { 0u8 }) && h[25] == 0 })
{
    let h = gx_graph_header(dim, count, und);
    lemma_be32(0x7ae71ffdu32); lemma_be32(1u32); lemma_be64(dim); lemma_be64(count);
    assert(h.subrange(0, 4) =~= gx_to_be(0x7ae71ffdu32 as int, 4));
    assert(h.subrange(4, 8) =~= gx_to_be(1u32 as int, 4));
    assert(h.subrange(8, 16) =~= gx_to_be(dim as int, 8));
    assert(h.subrange(16, 24) =~= gx_to_be(count as int, 8));
}
pub proof fn lemma_pairs_bytes(h: Seq<u8>, s: Seq<(u64, u64)>)
    requires h.len() == 26
    ensures gx_pairs_bytes(s).len() == 16 * s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] gx_pair_at(h + gx_pairs_bytes(s), i) == s[i],
    decreases s.len()
{
    if s.len() > 0 {
        let (d, p) = (s.drop_last(), s.last());
        lemma_pairs_bytes(h, d);
        let b = h + gx_pairs_bytes(s);
        lemma_be64(p.0); lemma_be64(p.1);
        assert(b =~= h + gx_pairs_bytes(d) + gx_pair_bytes(p));
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] gx_pair_at(b, i) == s[i] by {
            if i < d.len() {
                lemma_num_prefix(h + gx_pairs_bytes(d), gx_pair_bytes(p), 26 + 16 * i, 8);
                lemma_num_prefix(h + gx_pairs_bytes(d), gx_pair_bytes(p), 26 + 16 * i + 8, 8);
                assert(gx_pair_at(h + gx_pairs_bytes(d), i) == d[i]);
            } else {
                assert(b.subrange(26 + 16 * i, 26 + 16 * i + 8) =~= gx_to_be(p.0 as int, 8));
                assert(b.subrange(26 + 16 * i + 8, 26 + 16 * i + 16) =~= gx_to_be(p.1 as int, 8));
            }
        }
    }
}
/// bytes of a graph are valid and describe that graph
pub proof fn lemma_graph_round_trip(b: Seq<u8>, und: bool, verts: u64, edges: ISet<(u64, u64)>)
    requires gx_graph_bytes(b, und, verts, edges), und ==> gx_sym(edges),
        forall|p: (u64, u64)| #[trigger] edges.contains(p) ==> p.0 < verts && p.1 < verts,
    ensures gx_graph_valid(b), gx_num(b, 8, 8) == verts, (b[24] == 1) == und, gx_num(b, 16, 8) == edges.len(),
        gx_closed(gx_listed(b, gx_num(b, 16, 8)), b[24] == 1) =~= edges,
{
    let s = choose|s: Seq<(u64, u64)>| #[trigger] gx_lists(s, edges) && s.len() <= u64::MAX && b == gx_graph_header(verts, s.len() as u64, und) + gx_pairs_bytes(s);
    let h = gx_graph_header(verts, s.len() as u64, und);
    lemma_graph_header(verts, s.len() as u64, und);
    lemma_pairs_bytes(h, s);
    lemma_lists_len(s, edges);
    lemma_num_prefix(h, gx_pairs_bytes(s), 0, 4); lemma_num_prefix(h, gx_pairs_bytes(s), 4, 4);
    lemma_num_prefix(h, gx_pairs_bytes(s), 8, 8); lemma_num_prefix(h, gx_pairs_bytes(s), 16, 8);
    let n = gx_num(b, 16, 8);
    assert forall|i: int| 0 <= i < n implies (#[trigger] gx_pair_at(b, i)).0 < verts && gx_pair_at(b, i).1 < verts by { assert(s.contains(s[i])); }
    assert forall|p: (u64, u64)| gx_listed(b, n).contains(p) == #[trigger] edges.contains(p) by {
        if edges.contains(p) { assert(s.contains(p)); let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(gx_pair_at(b, i) == p); }
        if gx_listed(b, n).contains(p) { let i = choose|i: int| 0 <= i < n && #[trigger] gx_pair_at(b, i) == p; assert(s.contains(s[i])); }
    }
    assert(gx_listed(b, n) =~= edges);
    assert(gx_closed(gx_listed(b, n), und) =~= edges);
}

// the format of compressed graph bytes
pub open spec fn gx_cgraph_header(entries: u64, count: u64, verts: u64, und: bool, level: u8) -> Seq<u8> {
    gx_to_be(0x71ff7aedu32 as int, 4) + gx_to_be(2u32 as int, 4) + gx_to_be(gx_cdim(verts) as int, 8) + gx_to_be(entries as int, 8) + gx_to_be(count as int, 8)
        + gx_to_be(verts as int, 8) + seq![if und { 1u8 } else { 0u8 }, level]
}
pub open spec fn gx_triple_bytes(e: u64, q: (u64, u64)) -> Seq<u8> { gx_to_be(e as int, 8) + gx_to_be(q.0 as int, 8) + gx_to_be(q.1 as int, 8) }
pub open spec fn gx_triples_bytes(s: Seq<(u64, u64)>, m: IMap<(u64, u64), u64>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { gx_triples_bytes(s.drop_last(), m) + gx_triple_bytes(m[s.last()], s.last()) } }
/// b are the bytes of a compressed graph
pub open spec fn gx_cgraph_bytes(b: Seq<u8>, und: bool, verts: u64, level: u8, count: u64, blocks: IMap<(u64, u64), u64>) -> bool {
    exists|s: Seq<(u64, u64)>| #[trigger] gx_lists(s, blocks.dom()) && s.len() <= u64::MAX
        && b == gx_cgraph_header(s.len() as u64, count, verts, und, level) + gx_triples_bytes(s, blocks)
}
/// the block listed at position i
pub open spec fn gx_centry(b: Seq<u8>, i: int) -> u64 { gx_num(b, 42 + 24 * i, 8) as u64 }
pub open spec fn gx_cpos(b: Seq<u8>, i: int) -> (u64, u64) { (gx_num(b, 42 + 24 * i + 8, 8) as u64, gx_num(b, 42 + 24 * i + 16, 8) as u64) }
/// the first n blocks listed
pub open spec fn gx_cblocks(b: Seq<u8>, n: int) -> IMap<(u64, u64), u64>
    decreases n
{ if n <= 0 { IMap::empty() } else { gx_cblocks(b, n - 1).insert(gx_cpos(b, n - 1), gx_centry(b, n - 1)) } }
/// the number of edges in the first n blocks listed
pub open spec fn gx_cones(b: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { gx_cones(b, n - 1) + gx_ones(gx_centry(b, n - 1)) } }
/// the edges of block e at q are edges between vertices below v
pub open spec fn gx_inside(e: u64, q: (u64, u64), v: int) -> bool {
    forall|k: u64| k < 64 && #[trigger] gx_bit(e, k) ==> q.0 * 8 + k % 8 < v && q.1 * 8 + k / 8 < v
}
/// block i of the bytes is in order
pub open spec fn gx_centry_ok(b: Seq<u8>, i: int) -> bool {
    gx_centry(b, i) != 0 && gx_inside(gx_centry(b, i), gx_cpos(b, i), gx_num(b, 32, 8)) && gx_cpos(b, i).0 < gx_num(b, 8, 8) && gx_cpos(b, i).1 < gx_num(b, 8, 8)
}
/// these bytes describe a compressed graph
pub open spec fn gx_cgraph_valid(b: Seq<u8>) -> bool {
    &&& b.len() >= 42
    &&& gx_num(b, 0, 4) == 0x71ff7aed
    &&& gx_num(b, 4, 4) == 2
    &&& b[40] <= 1
    &&& 1 <= b[41] <= 64
    &&& gx_num(b, 8, 8) == gx_cdim(gx_num(b, 32, 8) as u64)
    &&& b.len() == 42 + 24 * gx_num(b, 16, 8)
    &&& forall|i: int| 0 <= i < gx_num(b, 16, 8) ==> #[trigger] gx_centry_ok(b, i)
    &&& gx_cblocks(b, gx_num(b, 16, 8)).dom().len() == gx_num(b, 16, 8)
    &&& gx_cones(b, gx_num(b, 16, 8)) == gx_num(b, 24, 8)
    &&& b[40] == 1 ==> gx_sym(gx_bedges(gx_cblocks(b, gx_num(b, 16, 8))))
}
/// what blocks in order describe
pub proof fn lemma_cgraph(b: Seq<u8>, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> #[trigger] gx_centry_ok(b, i), gx_num(b, 8, 8) == gx_cdim(gx_num(b, 32, 8) as u64), 0 <= gx_num(b, 32, 8) <= u64::MAX
    ensures ({ let m = gx_cblocks(b, n);
        &&& m.dom().finite() && m.dom().len() <= n
        &&& m.dom().len() == n ==> gx_bedges(m).finite() && gx_bedges(m).len() == gx_cones(b, n)
        &&& forall|p: (u64, u64)| #[trigger] gx_bedges(m).contains(p) ==> p.0 < gx_num(b, 32, 8) && p.1 < gx_num(b, 32, 8)
        &&& gx_sym(gx_bedges(m)) <==> forall|q: (u64, u64)| #[trigger] m.contains_key(q) ==> gx_mirrors(m, q)
    })
{
    let m = gx_cblocks(b, n);
    let v = gx_num(b, 32, 8);
    assert forall|i: int| 0 <= i < n implies (#[trigger] gx_cpos(b, i)).0 < 0x2000_0000_0000_0000 && gx_cpos(b, i).1 < 0x2000_0000_0000_0000 by { assert(gx_centry_ok(b, i)); }
    lemma_cblocks(b, n);
    lemma_mirrored(m);
    assert forall|p: (u64, u64)| #[trigger] gx_bedges(m).contains(p) implies p.0 < v && p.1 < v by {
        let q = (p.0 / 8, p.1 / 8);
        assert(m.contains_key(q));
        let i = choose|i: int| 0 <= i < n && gx_cpos(b, i) == q && gx_centry(b, i) == m[q];
        assert(gx_centry_ok(b, i));
        assert(gx_bit(gx_centry(b, i), gx_pos(p)));
    }
}
pub proof fn lemma_cones_up(b: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n
    ensures 0 <= gx_cones(b, i) <= gx_cones(b, n)
    decreases n
{ if i < n { lemma_cones_up(b, i, n - 1); } else if n > 0 { lemma_cones_up(b, n - 1, n - 1); } }
pub proof fn lemma_cblocks(b: Seq<u8>, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> (#[trigger] gx_cpos(b, i)).0 < 0x2000_0000_0000_0000 && gx_cpos(b, i).1 < 0x2000_0000_0000_0000
    ensures gx_cblocks(b, n).dom().finite(), gx_cblocks(b, n).dom().len() <= n,
        gx_cblocks(b, n).dom().len() == n ==> gx_bedges(gx_cblocks(b, n)).finite() && gx_bedges(gx_cblocks(b, n)).len() == gx_cones(b, n),
        forall|q: (u64, u64)| #[trigger] gx_cblocks(b, n).contains_key(q) ==> exists|i: int| 0 <= i < n && gx_cpos(b, i) == q && gx_centry(b, i) == gx_cblocks(b, n)[q],
    decreases n
{
    if n == 0 { assert(gx_cblocks(b, 0).dom() =~= ISet::empty()); lemma_bedges_empty(); } else {
        lemma_cblocks(b, n - 1);
        let (m, q, e) = (gx_cblocks(b, n - 1), gx_cpos(b, n - 1), gx_centry(b, n - 1));
        assert(gx_cblocks(b, n).dom() =~= m.dom().insert(q));
        if m.contains_key(q) { assert(m.dom().insert(q) =~= m.dom()); }
        else if m.dom().len() == n - 1 { lemma_bedges_insert(m, q, e); }
    }
}
pub proof fn lemma_same_bits(a: u64, b: u64)
    requires forall|k: u64| k < 64 ==> #[trigger] gx_bit(a, k) == gx_bit(b, k)
    ensures a == b
{
    assert forall|k: u64| k < 64 implies #[trigger] ((a >> k) & 1) == (b >> k) & 1 by {
        assert(gx_bit(a, k) == gx_bit(b, k));
        assert(((a >> k) & 1 == 0 || (a >> k) & 1 == 1) && ((b >> k) & 1 == 0 || (b >> k) & 1 == 1)) by (bit_vector);
    }
    assert(((a >> 0u64) & 1) == ((b >> 0u64) & 1) && ((a >> 1u64) & 1) == ((b >> 1u64) & 1) && ((a >> 2u64) & 1) == ((b >> 2u64) & 1) && ((a >> 3u64) & 1) == ((b >> 3u64) & 1) && ((a >> 4u64) & 1) == ((b >> 4u64) & 1) && ((a >> 5u64) & 1) == ((b >> 5u64) & 1) && ((a >> 6u64) & 1) == ((b >> 6u64) & 1) && ((a >> 7u64) & 1) == ((b >> 7u64) & 1) && ((a >> 8u64) & 1) == ((b >> 8u64) & 1) && ((a >> 9u64) & 1) == ((b >> 9u64) & 1) && ((a >> 10u64) & 1) == ((b >> 10u64) & 1) && ((a >> 11u64) & 1) == ((b >> 11u64) & 1) && ((a >> 12u64) & 1) == ((b >> 12u64) & 1) && ((a >> 13u64) & 1) == ((b >> 13u64) & 1) && ((a >> 14u64) & 1) == ((b >> 14u64) & 1) && ((a >> 15u64) & 1) == ((b >> 15u64) & 1) && ((a >> 16u64) & 1) == ((b >> 16u64) & 1) && ((a >> 17u64) & 1) == ((b >> 17u64) & 1) && ((a >> 18u64) & 1) == ((b >> 18u64) & 1) && ((a >> 19u64) & 1) == ((b >> 19u64) & 1) && ((a >> 20u64) & 1) == ((b >> 20u64) & 1) && ((a >> 21u64) & 1) == ((b >> 21u64) & 1) && ((a >> 22u64) & 1) == ((b >> 22u64) & 1) && ((a >> 23u64) & 1) == ((b >> 23u64) & 1) && ((a >> 24u64) & 1) == ((b >> 24u64) & 1) && ((a >> 25u64) & 1) == ((b >> 25u64) & 1) && ((a >> 26u64) & 1) == ((b >> 26u64) & 1) && ((a >> 27u64) & 1) == ((b >> 27u64) & 1) && ((a >> 28u64) & 1) == ((b >> 28u64) & 1) && ((a >> 29u64) & 1) == ((b >> 29u64) & 1) && ((a >> 30u64) & 1) == ((b >> 30u64) & 1) && ((a >> 31u64) & 1) == ((b >> 31u64) & 1) && ((a >> 32u64) & 1) == ((b >> 32u64) & 1) && ((a >> 33u64) & 1) == ((b >> 33u64) & 1) && ((a >> 34u64) & 1) == ((b >> 34u64) & 1) && ((a >> 35u64) & 1) == ((b >> 35u64) & 1) && ((a >> 36u64) & 1) == ((b >> 36u64) & 1) && ((a >> 37u64) & 1) == ((b >> 37u64) & 1) && ((a >> 38u64) & 1) == ((b >> 38u64) & 1) && ((a >> 39u64) & 1) == ((b >> 39u64) & 1) && ((a >> 40u64) & 1) == ((b >> 40u64) & 1) && ((a >> 41u64) & 1) == ((b >> 41u64) & 1) && ((a >> 42u64) & 1) == ((b >> 42u64) & 1) && ((a >> 43u64) & 1) == ((b >> 43u64) & 1) && ((a >> 44u64) & 1) == ((b >> 44u64) & 1) && ((a >> 45u64) & 1) == ((b >> 45u64) & 1) && ((a >> 46u64) & 1) == ((b >> 46u64) & 1) && ((a >> 47u64) & 1) == ((b >> 47u64) & 1) && ((a >> 48u64) & 1) == ((b >> 48u64) & 1) && ((a >> 49u64) & 1) == ((b >> 49u64) & 1) && ((a >> 50u64) & 1) == ((b >> 50u64) & 1) && ((a >> 51u64) & 1) == ((b >> 51u64) & 1) && ((a >> 52u64) & 1) == ((b >> 52u64) & 1) && ((a >> 53u64) & 1) == ((b >> 53u64) & 1) && ((a >> 54u64) & 1) == ((b >> 54u64) & 1) && ((a >> 55u64) & 1) == ((b >> 55u64) & 1) && ((a >> 56u64) & 1) == ((b >> 56u64) & 1) && ((a >> 57u64) & 1) == ((b >> 57u64) & 1) && ((a >> 58u64) & 1) == ((b >> 58u64) & 1) && ((a >> 59u64) & 1) == ((b >> 59u64) & 1) && ((a >> 60u64) & 1) == ((b >> 60u64) & 1) && ((a >> 61u64) & 1) == ((b >> 61u64) & 1) && ((a >> 62u64) & 1) == ((b >> 62u64) & 1) && ((a >> 63u64) & 1) == ((b >> 63u64) & 1) ==> a == b) by (bit_vector);
}
/// an entry and its mirror image
pub open spec fn gx_mirrors(m: IMap<(u64, u64), u64>, q: (u64, u64)) -> bool {
    forall|k: u64| k < 64 ==> #[trigger] gx_bit(gx_block_at(m, q.1, q.0), k) == gx_bit(m[q], gx_tr(k))
}
pub proof fn lemma_mirror_entry(m: IMap<(u64, u64), u64>, q: (u64, u64), t: u64)
    requires forall|k: u64| k < 64 ==> #[trigger] gx_bit(t, k) == gx_bit(m[q], gx_tr(k))
    ensures gx_block_at(m, q.1, q.0) == t <==> gx_mirrors(m, q)
{
    let r = gx_block_at(m, q.1, q.0);
    if gx_mirrors(m, q) {
        assert forall|k: u64| k < 64 implies #[trigger] gx_bit(r, k) == gx_bit(t, k) by {}
        lemma_same_bits(r, t);
    }
}
pub open spec fn gx_transposed(e: u64, t: u64) -> bool { forall|k: u64| k < 64 ==> #[trigger] gx_bit(t, k) == gx_bit(e, gx_tr(k)) }
pub proof fn lemma_mirror_all(m: IMap<(u64, u64), u64>, q: (u64, u64))
    ensures forall|t: u64| #[trigger] gx_transposed(m[q], t) ==> (gx_block_at(m, q.1, q.0) == t <==> gx_mirrors(m, q))
{ assert forall|t: u64| #[trigger] gx_transposed(m[q], t) implies (gx_block_at(m, q.1, q.0) == t <==> gx_mirrors(m, q)) by { lemma_mirror_entry(m, q, t); } }
/// the edges are symmetric exactly when every block is mirrored
pub proof fn lemma_mirrored(m: IMap<(u64, u64), u64>)
    requires forall|q: (u64, u64)| #[trigger] m.contains_key(q) ==> q.0 < 0x2000_0000_0000_0000 && q.1 < 0x2000_0000_0000_0000
    ensures gx_sym(gx_bedges(m)) <==> forall|q: (u64, u64)| #[trigger] m.contains_key(q) ==> gx_mirrors(m, q)
{
    if forall|q: (u64, u64)| #[trigger] m.contains_key(q) ==> gx_mirrors(m, q) {
        assert forall|p: (u64, u64)| #[trigger] gx_bedges(m).contains(p) implies gx_bedges(m).contains((p.1, p.0)) by {
            let q = (p.0 / 8, p.1 / 8);
            let k = gx_pos((p.1, p.0));
            assert(k < 64 && gx_tr(k) == gx_pos(p));
            assert(gx_mirrors(m, q));
            assert(gx_bit(gx_block_at(m, q.1, q.0), k));
            lemma_bit_zero(0, k);
        }
    }
    if gx_sym(gx_bedges(m)) {
        assert forall|q: (u64, u64)| #[trigger] m.contains_key(q) implies gx_mirrors(m, q) by {
            assert forall|k: u64| k < 64 implies #[trigger] gx_bit(gx_block_at(m, q.1, q.0), k) == gx_bit(m[q], gx_tr(k)) by {
                let p = gx_at(q, gx_tr(k));
                let r = (p.1, p.0);
                assert((p.0 / 8, p.1 / 8) == q && gx_pos(p) == gx_tr(k));
                assert((r.0 / 8, r.1 / 8) == (q.1, q.0) && gx_pos(r) == k);
                assert(gx_bedges(m).contains(p) == gx_bit(m[q], gx_tr(k)));
                lemma_bit_zero(0, k);
                assert(gx_bedges(m).contains(r) == gx_bit(gx_block_at(m, q.1, q.0), k));
                assert((r.1, r.0) == p);
            }
        }
    }
}

// reading back the bytes of a compressed graph
pub proof fn lemma_cgraph_header(entries: u64, count: u64, verts: u64, und: bool, level: u8)
    ensures ({ let h = gx_cgraph_header(entries, count, verts, und, level);
        h.len() == 42 && gx_num(h, 0, 4) == 0x71ff7aed && gx_num(h, 4, 4) == 2 && gx_num(h, 8, 8) == gx_cdim(verts) && gx_num(h, 16, 8) == entries && gx_num(h, 24, 8) == count
        && gx_num(h, 32, 8) == verts && h[40] == (if und { 1u8 } else { 0u8 }) && h[41] == level })
{
    let h = gx_cgraph_header(entries, count, verts, und, level);
    lemma_be32(0x71ff7aedu32); lemma_be32(2u32); lemma_be64(gx_cdim(verts)); lemma_be64(entries); lemma_be64(count); lemma_be64(verts);
    assert(h.subrange(0, 4) =~= gx_to_be(0x71ff7aedu32 as int, 4));
    assert(h.subrange(4, 8) =~= gx_to_be(2u32 as int, 4));
    assert(h.subrange(8, 16) =~= gx_to_be(gx_cdim(verts) as int, 8));
    assert(h.subrange(16, 24) =~= gx_to_be(entries as int, 8));
    assert(h.subrange(24, 32) =~= gx_to_be(count as int, 8));
    assert(h.subrange(32, 40) =~= gx_to_be(verts as int, 8));
}
pub proof fn lemma_triples_bytes(h: Seq<u8>, s: Seq<(u64, u64)>, m: IMap<(u64, u64), u64>)
    requires h.len() == 42
    ensures gx_triples_bytes(s, m).len() == 24 * s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] gx_centry(h + gx_triples_bytes(s, m), i) == m[s[i]],
        forall|i: int| 0 <= i < s.len() ==> #[trigger] gx_cpos(h + gx_triples_bytes(s, m), i) == s[i],
    decreases s.len()
{
    if s.len() > 0 {
        let (d, p) = (s.drop_last(), s.last());
        lemma_triples_bytes(h, d, m);
        let a = h + gx_triples_bytes(d, m);
        let b = h + gx_triples_bytes(s, m);
        lemma_be64(p.0); lemma_be64(p.1); lemma_be64(m[p]);
        let t = gx_triple_bytes(m[p], p);
        assert(b =~= a + t);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] gx_centry(b, i) == m[s[i]] && gx_cpos(b, i) == s[i] by {
            let o = 42 + 24 * i;
            if i < d.len() {
                lemma_num_prefix(a, t, o, 8); lemma_num_prefix(a, t, o + 8, 8); lemma_num_prefix(a, t, o + 16, 8);
                assert(gx_centry(a, i) == m[d[i]] && gx_cpos(a, i) == d[i]);
            } else {
                assert(b.subrange(o, o + 8) =~= gx_to_be(m[p] as int, 8));
                assert(b.subrange(o + 8, o + 16) =~= gx_to_be(p.0 as int, 8));
                assert(b.subrange(o + 16, o + 24) =~= gx_to_be(p.1 as int, 8));
            }
        }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] gx_cpos(b, i) == s[i] by { assert(gx_centry(b, i) == m[s[i]]); }
    }
}
pub proof fn lemma_cblocks_of(b: Seq<u8>, s: Seq<(u64, u64)>, m: IMap<(u64, u64), u64>, n: int)
    requires 0 <= n <= s.len(), s.no_duplicates(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] gx_centry(b, i) == m[s[i]],
        forall|i: int| 0 <= i < s.len() ==> #[trigger] gx_cpos(b, i) == s[i],
    ensures forall|q: (u64, u64)| #[trigger] gx_cblocks(b, n).contains_key(q) <==> s.take(n).contains(q),
        forall|q: (u64, u64)| #[trigger] gx_cblocks(b, n).contains_key(q) ==> gx_cblocks(b, n)[q] == m[q],
    decreases n
{
    if n > 0 {
        lemma_cblocks_of(b, s, m, n - 1);
        assert(gx_cpos(b, n - 1) == s[n - 1]);
        assert(gx_centry(b, n - 1) == m[s[n - 1]]);
        assert(s.take(n) =~= s.take(n - 1).push(s[n - 1]));
        let (t, x) = (s.take(n - 1), s[n - 1]);
        lemma_push(t, x);
        let c = gx_cblocks(b, n - 1);
        assert(gx_cblocks(b, n) == c.insert(x, m[x]));
        assert forall|q: (u64, u64)| #[trigger] gx_cblocks(b, n).contains_key(q) <==> s.take(n).contains(q) by {
            assert(t.push(x).contains(q) <==> t.contains(q) || q == x);
            assert(c.contains_key(q) <==> t.contains(q));
        }
        assert forall|q: (u64, u64)| #[trigger] gx_cblocks(b, n).contains_key(q) implies gx_cblocks(b, n)[q] == m[q] by {
            if q != x { assert(c.contains_key(q)); }
        }
    } else { assert(s.take(n) =~= Seq::empty()); }
}
proof fn lemma_centries_ok(b: Seq<u8>, s: Seq<(u64, u64)>, m: IMap<(u64, u64), u64>, verts: u64, n: int)
    requires n == s.len(), gx_num(b, 32, 8) == verts, gx_num(b, 8, 8) == gx_cdim(verts),
        forall|i: int| 0 <= i < n ==> #[trigger] gx_centry(b, i) == m[s[i]],
        forall|i: int| 0 <= i < n ==> #[trigger] gx_cpos(b, i) == s[i],
        forall|q: (u64, u64)| #[trigger] s.contains(q) ==> m.contains_key(q),
        forall|q: (u64, u64)| #[trigger] m.contains_key(q) ==> q.0 < gx_cdim(verts) && q.1 < gx_cdim(verts) && m[q] != 0,
        forall|p: (u64, u64)| #[trigger] gx_bedges(m).contains(p) ==> p.0 < verts && p.1 < verts,
    ensures forall|i: int| 0 <= i < n ==> #[trigger] gx_centry_ok(b, i)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] gx_centry_ok(b, i) by {
        let (e, q) = (gx_centry(b, i), gx_cpos(b, i));
        assert(s.contains(s[i])); assert(m.contains_key(q) && m[q] == e);
        assert forall|k: u64| k < 64 && #[trigger] gx_bit(e, k) implies q.0 * 8 + k % 8 < verts && q.1 * 8 + k / 8 < verts by {
            let p = gx_at(q, k);
            assert((p.0 / 8, p.1 / 8) == q && gx_pos(p) == k);
            assert(gx_bedges(m).contains(p));
        }
    }
}
/// bytes of a compressed graph are valid and describe that compressed graph
#[verifier::rlimit(40)]
pub proof fn lemma_cgraph_round_trip(b: Seq<u8>, und: bool, verts: u64, level: u8, count: u64, m: IMap<(u64, u64), u64>)
    requires gx_cgraph_bytes(b, und, verts, level, count, m), 1 <= level <= 64, count == gx_bedges(m).len(), und ==> gx_sym(gx_bedges(m)),
        forall|q: (u64, u64)| #[trigger] m.contains_key(q) ==> q.0 < gx_cdim(verts) && q.1 < gx_cdim(verts) && m[q] != 0,
        forall|p: (u64, u64)| #[trigger] gx_bedges(m).contains(p) ==> p.0 < verts && p.1 < verts,
    ensures gx_cgraph_valid(b), gx_num(b, 32, 8) == verts, (b[40] == 1) == und, b[41] == level, gx_num(b, 24, 8) == count, gx_cblocks(b, gx_num(b, 16, 8)) =~= m,
{
    let s = choose|s: Seq<(u64, u64)>| #[trigger] gx_lists(s, m.dom()) && s.len() <= u64::MAX && b == gx_cgraph_header(s.len() as u64, count, verts, und, level) + gx_triples_bytes(s, m);
    let n = s.len() as int;
    let h = gx_cgraph_header(n as u64, count, verts, und, level);
    let z = gx_triples_bytes(s, m);
    lemma_cgraph_header(n as u64, count, verts, und, level);
    lemma_triples_bytes(h, s, m);
    lemma_lists_len(s, m.dom());
    lemma_num_prefix(h, z, 0, 4); lemma_num_prefix(h, z, 4, 4); lemma_num_prefix(h, z, 8, 8);
    lemma_num_prefix(h, z, 16, 8); lemma_num_prefix(h, z, 24, 8); lemma_num_prefix(h, z, 32, 8);
    lemma_cblocks_of(b, s, m, n);
    assert(s.take(n) =~= s);
    let c = gx_cblocks(b, n);
    assert forall|q: (u64, u64)| #[trigger] c.contains_key(q) <==> m.contains_key(q) by { assert(s.contains(q) <==> m.dom().contains(q)); }
    assert(c =~= m);
    lemma_centries_ok(b, s, m, verts, n);
    lemma_cgraph(b, n);
}

// ----- text and memory -------------------------------------------------------------------------

/// the amount of memory the allocator is willing to hand out in one piece (unknown, fixed)
pub uninterp spec fn gx_alloc_limit() -> int;
pub assume_specification [String::try_reserve_exact] (s: &mut String, n: usize) -> (r: Result<(), std::collections::TryReserveError>)
    ensures final(s)@ == old(s)@, r is Err ==> n > gx_alloc_limit();
pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::try_reserve_exact] (s: &mut Vec<T, A>, n: usize) -> (r: Result<(), std::collections::TryReserveError>)
    ensures final(s)@ == old(s)@, r is Err ==> n > gx_alloc_limit();

/// the text "[ x, x, ..." of the first n entries of row r
pub open spec fn gx_row_text(s: ISet<(u64, u64)>, dim: int, r: int, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { seq!['[', ' '] } else {
        gx_row_text(s, dim, r, n - 1).push(if s.contains(((n - 1) as u64, r as u64)) { '1' } else { '0' })
            + (if n < dim { seq![',', ' '] } else { seq![' '] })
    }
}
/// the text of the first n rows
pub open spec fn gx_matrix_text(s: ISet<(u64, u64)>, dim: int, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        gx_matrix_text(s, dim, n - 1) + gx_row_text(s, dim, n - 1, dim).push(']') + (if n < dim { seq!['\r', '\n'] } else { Seq::empty() })
    }
}
/// no character of the text of an adjacency matrix is NUL
pub proof fn lemma_no_nul(s: ISet<(u64, u64)>, dim: int, n: int)
    ensures !gx_matrix_text(s, dim, n).contains('\0')
    decreases n
{
    if n > 0 {
        lemma_no_nul(s, dim, n - 1);
        lemma_row_no_nul(s, dim, n - 1, dim);
    }
}
pub proof fn lemma_row_no_nul(s: ISet<(u64, u64)>, dim: int, r: int, n: int)
    ensures !gx_row_text(s, dim, r, n).contains('\0')
    decreases n
{
    if n > 0 { lemma_row_no_nul(s, dim, r, n - 1); }
}
use crate::matrix::MatrixRepresentation;
// ----- text of numbers (trusted: core::fmt) ---------------------------------------------------
/// what core::fmt shows for a value, with a precision or without one
pub uninterp spec fn gx_shown<V>(v: V, prec: Option<int>) -> Seq<char>;
/// n times the character c
pub open spec fn gx_rep(c: char, n: int) -> Seq<char> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| c) }
/// s, right-aligned in w columns
pub open spec fn gx_right(s: Seq<char>, w: int) -> Seq<char> { gx_rep(' ', w - s.len()) + s }
pub open spec fn gx_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 < #[trigger] (s[i] as u32) < 128 }
/// the characters of numbers: digits, sign, point, "inf", "NaN"
pub broadcast axiom fn axiom_number_ascii<V: crate::util::Numeric>(v: V, prec: Option<int>)
    ensures gx_ascii(#[trigger] gx_shown(v, prec));
/// zero is 0, and with a fraction it is 0.00..., with as many zeros as asked for
pub broadcast axiom fn axiom_zero_shown<V: crate::util::Numeric>(prec: Option<int>)
    requires V::ndec() <==> prec is Some
    ensures #[trigger] gx_shown(V::nzero(), prec) == seq!['0'] + gx_fraction(if prec is Some { prec->0 } else { 0 });
/// the point and n zeros, or nothing if n is zero
pub open spec fn gx_fraction(n: int) -> Seq<char> { if n <= 0 { Seq::empty() } else { seq!['.'] + gx_rep('0', n) } }
pub broadcast axiom fn axiom_shown_ref<V>(v: &V, prec: Option<int>)
    ensures #[trigger] gx_shown(v, prec) == gx_shown(*v, prec);
/// a text is shown as it is
pub broadcast axiom fn axiom_shown_string(s: String)
    ensures #[trigger] gx_shown(s, None) == s@;
pub broadcast axiom fn axiom_shown_str(s: &str)
    ensures #[trigger] gx_shown(s, None) == s@;
/// what has been written to a formatter
pub uninterp spec fn gx_written(f: core::fmt::Formatter) -> Seq<char>;
/// whether the formatter's sink takes a text
pub uninterp spec fn gx_takes(f: core::fmt::Formatter, s: Seq<char>) -> bool;
#[verifier::external_body]
pub fn gx_fmt_error() -> core::fmt::Error { unimplemented!() }
pub assume_specification<'a> [core::fmt::Formatter::<'a>::write_str] (f: &mut core::fmt::Formatter<'a>, s: &str) -> (r: core::fmt::Result)
    ensures r is Ok <==> gx_takes(*old(f), s@), r is Ok ==> gx_written(*final(f)) == gx_written(*old(f)) + s@;
#[verifier::external_body]
pub fn gx_fmt_new() -> (r: String)
    ensures r@ == Seq::<char>::empty()
{ unimplemented!() }
#[verifier::external_body]
pub fn gx_fmt_lit(s: String, l: &str) -> (r: String)
    ensures r@ == s@ + l@
{ unimplemented!() }
/// `{:>width$.prec$}`; a width or precision above u16::MAX panics
#[verifier::external_body]
pub fn gx_fmt_arg<V>(s: String, v: &V, width: Option<usize>, prec: Option<usize>) -> (r: String)
    requires width matches Some(w) ==> w <= 65535, prec matches Some(p) ==> p <= 65535
    ensures ({
        let t = gx_shown(*v, match prec { Some(p) => Some(p as int), None => None });
        r@ == s@ + (match width { Some(w) => gx_right(t, w as int), None => t })
    })
{ unimplemented!() }
/// the bytes are the characters, one by one
pub open spec fn gx_spelt(b: Seq<u8>, s: Seq<char>) -> bool { b.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] b[i] as u32 == s[i] as u32 }
/// the bytes of a text (UTF-8), given only for ASCII
pub uninterp spec fn gx_utf8(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn axiom_utf8_ascii(s: Seq<char>)
    requires gx_ascii(s)
    ensures gx_spelt(#[trigger] gx_utf8(s), s);
pub assume_specification [String::len] (s: &String) -> (r: usize)
    ensures r == gx_utf8(s@).len();
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == gx_utf8(s@);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures
        r is Ok ==> gx_utf8(r->Ok_0@) == v@,
        (forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < 128) ==> r is Ok && gx_spelt(v@, r->Ok_0@);

/// the text of one entry: as many digits after the point as asked for, also for integers
pub open spec fn gx_entry_text<T: crate::util::Numeric>(v: T, digits: int) -> Seq<char> {
    if T::ndec() { gx_shown(v, Some(digits)) } else { gx_shown(v, None) + gx_fraction(digits) }
}
/// The width of the columns: that of the widest entry, or of a zero if it is wider
pub open spec fn gx_is_width<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, digits: int, w: int) -> bool {
    &&& gx_entry_text(T::nzero(), digits).len() <= w
    &&& forall|p: (u64, u64)| m.contains_key(p) ==> (#[trigger] gx_entry_text(m[p], digits)).len() <= w
    &&& gx_entry_text(T::nzero(), digits).len() == w || exists|p: (u64, u64)| m.contains_key(p) && (#[trigger] gx_entry_text(m[p], digits)).len() == w
}
/// what the columns show: entry (c, r) right-aligned
pub open spec fn gx_cell<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, digits: int, w: int, c: int, r: int) -> Seq<char> {
    gx_right(gx_entry_text(if m.contains_key((c as u64, r as u64)) { m[(c as u64, r as u64)] } else { T::nzero() }, digits), w)
}
pub open spec fn gx_number_cells<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, digits: int, w: int) -> spec_fn(int, int) -> Seq<char> {
    |c: int, r: int| gx_cell(m, digits, w, c, r)
}
/// the text "[ x, x, ..." of the first n entries of row r
#[verifier::opaque]
pub open spec fn gx_grid_row(f: spec_fn(int, int) -> Seq<char>, dim: int, r: int, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { seq!['[', ' '] } else { gx_grid_row(f, dim, r, n - 1) + f(n - 1, r) + (if n < dim { seq![',', ' '] } else { seq![' '] }) }
}
/// the text of the first n rows
#[verifier::opaque]
pub open spec fn gx_grid(f: spec_fn(int, int) -> Seq<char>, dim: int, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        gx_grid(f, dim, n - 1) + gx_grid_row(f, dim, n - 1, dim).push(']') + (if n < dim { seq!['\r', '\n'] } else { Seq::empty() })
    }
}
/// The text of a matrix of numbers
pub open spec fn gx_num_text<T: crate::util::Numeric>(m: crate::matrix::csr_square_matrix::CsrSquareMatrix<T>, digits: int) -> Seq<char> {
    gx_grid(gx_number_cells(m.ents(), digits, gx_width(m.ents(), digits)), m.mdim() as int, m.mdim() as int)
}
pub open spec fn gx_width<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, digits: int) -> int { choose|w: int| gx_is_width(m, digits, w) }
/// the number of characters of the text, and two
pub open spec fn gx_num_size(dim: int, w: int) -> int { dim * (dim * (w + 2) + 4) }
/// that text does not fit in memory, or core::fmt takes no such number of digits
pub open spec fn gx_num_text_big<T: crate::util::Numeric>(m: crate::matrix::csr_square_matrix::CsrSquareMatrix<T>, digits: int) -> bool {
    let n = gx_num_size(m.mdim() as int, gx_width(m.ents(), digits));
    n > usize::MAX || n - 2 > gx_alloc_limit() || (T::ndec() && digits > 65535)
}

pub proof fn lemma_width<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, digits: int, w: int)
    requires gx_is_width(m, digits, w)
    ensures gx_width(m, digits) == w
{
    let v = gx_width(m, digits);
    assert(gx_is_width(m, digits, v));
}
pub proof fn lemma_width_insert<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, digits: int, w: int, p: (u64, u64), v: T)
    requires gx_is_width(m, digits, w), !m.contains_key(p)
    ensures gx_is_width(m.insert(p, v), digits, if gx_entry_text(v, digits).len() > w { gx_entry_text(v, digits).len() as int } else { w })
{
    let m2 = m.insert(p, v);
    assert(m2.contains_key(p) && m2[p] == v);
    assert forall|q: (u64, u64)| m.contains_key(q) implies m2.contains_key(q) && m2[q] == #[trigger] m[q] by {}
    if gx_entry_text(v, digits).len() <= w && gx_entry_text(T::nzero(), digits).len() != w {
        let q = choose|q: (u64, u64)| m.contains_key(q) && (#[trigger] gx_entry_text(m[q], digits)).len() == w;
        assert(gx_entry_text(m2[q], digits).len() == w);
    }
}
/// all cells have the width w
pub open spec fn gx_even(f: spec_fn(int, int) -> Seq<char>, dim: int, w: int) -> bool {
    forall|c: int, r: int| 0 <= c < dim && 0 <= r < dim ==> (#[trigger] f(c, r)).len() == w
}
pub proof fn lemma_grid_row_len(f: spec_fn(int, int) -> Seq<char>, w: int, dim: int, r: int, n: int)
    requires gx_even(f, dim, w), 0 <= n <= dim, 0 <= r < dim
    ensures gx_grid_row(f, dim, r, n).len() == 2 + n * (w + 2) - (if n == dim { 1int } else { 0 })
    decreases n
{
    reveal(gx_grid_row);
    if n > 0 {
        lemma_grid_row_len(f, w, dim, r, n - 1);
        assert(f(n - 1, r).len() == w);
        assert(n * (w + 2) == (n - 1) * (w + 2) + (w + 2)) by (nonlinear_arith);
    } else {
        assert(n * (w + 2) == 0) by (nonlinear_arith) requires n == 0;
    }
}
pub proof fn lemma_grid_len(f: spec_fn(int, int) -> Seq<char>, w: int, dim: int, n: int)
    requires gx_even(f, dim, w), 0 <= n <= dim
    ensures gx_grid(f, dim, n).len() == n * (dim * (w + 2) + 4) - (if n == dim && n > 0 { 2int } else { 0 })
    decreases n
{
    reveal(gx_grid);
    if n > 0 {
        lemma_grid_len(f, w, dim, n - 1);
        lemma_grid_row_len(f, w, dim, n - 1, dim);
        let k = dim * (w + 2) + 4;
        assert(n * k == (n - 1) * k + k) by (nonlinear_arith);
    } else {
        assert(n * (dim * (w + 2) + 4) == 0) by (nonlinear_arith) requires n == 0;
    }
}
/// the text grows by a cell, by a row
pub proof fn lemma_grid_step(f: spec_fn(int, int) -> Seq<char>, dim: int, r: int, n: int)
    requires 0 <= r
    ensures
        gx_grid_row(f, dim, r, 0) == seq!['[', ' '], gx_grid(f, dim, 0) == Seq::<char>::empty(),
        n > 0 ==> gx_grid_row(f, dim, r, n) == gx_grid_row(f, dim, r, n - 1) + f(n - 1, r) + (if n < dim { seq![',', ' '] } else { seq![' '] }),
        gx_grid(f, dim, r + 1) == gx_grid(f, dim, r) + gx_grid_row(f, dim, r, dim).push(']') + (if r + 1 < dim { seq!['\r', '\n'] } else { Seq::empty() }),
{
    reveal(gx_grid_row);
    reveal(gx_grid);
}
/// where entry (c, r) is in the text
pub open spec fn gx_base(c: int, r: int, dim: int, w: int) -> int { r * (dim * (w + 2) + 4) + 2 + c * (w + 2) }
/// the difference that one cell makes to the text of its row
pub proof fn lemma_grid_row_set(f: spec_fn(int, int) -> Seq<char>, g: spec_fn(int, int) -> Seq<char>, w: int, dim: int, c: int, r: int, s: int, n: int)
    requires
        gx_even(f, dim, w), gx_even(g, dim, w), 0 <= w, 0 <= n <= dim, 0 <= c < dim, 0 <= r < dim, 0 <= s < dim,
        forall|x: int, y: int| 0 <= x < dim && 0 <= y < dim && (x != c || y != r) ==> #[trigger] f(x, y) == g(x, y),
    ensures
        gx_grid_row(f, dim, s, n).len() == gx_grid_row(g, dim, s, n).len(),
        forall|i: int| 0 <= i < gx_grid_row(f, dim, s, n).len() ==> #[trigger] gx_grid_row(g, dim, s, n)[i]
            == (if s == r && c < n && 2 + c * (w + 2) <= i < 2 + c * (w + 2) + w { g(c, r)[i - (2 + c * (w + 2))] } else { gx_grid_row(f, dim, s, n)[i] }),
        s == r && c < n ==> forall|i: int| 2 + c * (w + 2) <= i < 2 + c * (w + 2) + w ==> #[trigger] gx_grid_row(f, dim, s, n)[i] == f(c, r)[i - (2 + c * (w + 2))],
        s == r && c < n ==> 2 + c * (w + 2) + w < gx_grid_row(f, dim, s, n).len(),
    decreases n
{
    reveal(gx_grid_row);
    if n > 0 {
        lemma_grid_row_set(f, g, w, dim, c, r, s, n - 1);
        lemma_grid_row_len(f, w, dim, s, n - 1);
        lemma_grid_row_len(g, w, dim, s, n - 1);
        assert(f(n - 1, s).len() == w && g(n - 1, s).len() == w);
        if c < n - 1 {
            assert(c * (w + 2) + (w + 2) <= (n - 1) * (w + 2)) by (nonlinear_arith) requires c < n - 1, w >= 0;
        }
        if n - 1 != c || s != r { assert(f(n - 1, s) == g(n - 1, s)); }
    }
}
pub proof fn lemma_grid_set(f: spec_fn(int, int) -> Seq<char>, g: spec_fn(int, int) -> Seq<char>, w: int, dim: int, c: int, r: int, n: int)
    requires
        gx_even(f, dim, w), gx_even(g, dim, w), 0 <= w, 0 <= n <= dim, 0 <= c < dim, 0 <= r < dim,
        forall|x: int, y: int| 0 <= x < dim && 0 <= y < dim && (x != c || y != r) ==> #[trigger] f(x, y) == g(x, y),
    ensures
        gx_grid(f, dim, n).len() == gx_grid(g, dim, n).len(),
        forall|i: int| 0 <= i < gx_grid(f, dim, n).len() ==> #[trigger] gx_grid(g, dim, n)[i]
            == (if r < n && gx_base(c, r, dim, w) <= i < gx_base(c, r, dim, w) + w { g(c, r)[i - gx_base(c, r, dim, w)] } else { gx_grid(f, dim, n)[i] }),
        r < n ==> forall|i: int| gx_base(c, r, dim, w) <= i < gx_base(c, r, dim, w) + w ==> #[trigger] gx_grid(f, dim, n)[i] == f(c, r)[i - gx_base(c, r, dim, w)],
        r < n ==> 0 <= gx_base(c, r, dim, w) && gx_base(c, r, dim, w) + w < gx_grid(f, dim, n).len(),
    decreases n
{
    reveal(gx_grid);
    let k = dim * (w + 2) + 4;
    assert(r * k >= 0 && c * (w + 2) >= 0) by (nonlinear_arith) requires r >= 0, c >= 0, w >= 0, k == dim * (w + 2) + 4, dim >= 0;
    if n > 0 {
        lemma_grid_set(f, g, w, dim, c, r, n - 1);
        lemma_grid_row_set(f, g, w, dim, c, r, n - 1, dim);
        lemma_grid_len(f, w, dim, n - 1);
        lemma_grid_len(g, w, dim, n - 1);
        lemma_grid_row_len(f, w, dim, n - 1, dim);
        lemma_grid_row_len(g, w, dim, n - 1, dim);
        if r < n - 1 {
            assert(r * k + k <= (n - 1) * k) by (nonlinear_arith) requires r < n - 1, k >= 0;
            assert(c * (w + 2) + w + 2 <= dim * (w + 2)) by (nonlinear_arith) requires c < dim, w >= 0;
        }
    }
}
/// the first pos bytes of buf spell t
pub open spec fn gx_upto(buf: Seq<u8>, pos: int, t: Seq<char>) -> bool {
    pos == t.len() && pos <= buf.len() && forall|i: int| 0 <= i < pos ==> #[trigger] buf[i] as u32 == t[i] as u32
}
pub broadcast proof fn lemma_spelt_upto(b: Seq<u8>, s: Seq<char>, t: Seq<char>)
    requires #[trigger] gx_spelt(b, s), #[trigger] gx_upto(b, b.len() as int, t)
    ensures s == t
{
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(b[i] as u32 == s[i] as u32 && b[i] as u32 == t[i] as u32); }
    assert(s =~= t);
}
pub proof fn lemma_even<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, digits: int, w: int, dim: int)
    requires gx_entry_text(T::nzero(), digits).len() <= w, forall|p: (u64, u64)| m.contains_key(p) ==> (#[trigger] gx_entry_text(m[p], digits)).len() <= w
    ensures gx_even(gx_number_cells(m, digits, w), dim, w)
{
    assert forall|c: int, r: int| 0 <= c < dim && 0 <= r < dim implies (#[trigger] gx_number_cells(m, digits, w)(c, r)).len() == w by {
        let p = (c as u64, r as u64);
        if m.contains_key(p) { assert(gx_entry_text(m[p], digits).len() <= w); }
    }
}
/// one entry more: the text changes where the entry is, from a zero
pub proof fn lemma_entry_set<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, all: IMap<(u64, u64), T>, digits: int, w: int, dim: int, p: (u64, u64), v: T)
    requires
        gx_is_width(all, digits, w), all.contains_key(p), all[p] == v, !m.contains_key(p), p.0 < dim, p.1 < dim, dim <= u64::MAX,
        forall|q: (u64, u64)| #[trigger] m.contains_key(q) ==> all.contains_key(q) && m[q] == all[q],
    ensures ({
        let (f, g) = (gx_grid(gx_number_cells(m, digits, w), dim, dim), gx_grid(gx_number_cells(m.insert(p, v), digits, w), dim, dim));
        let (b, z, t) = (gx_base(p.0 as int, p.1 as int, dim, w), gx_right(gx_entry_text(T::nzero(), digits), w), gx_right(gx_entry_text(v, digits), w));
        &&& f.len() == g.len() && 0 <= b && b + w < f.len()
        &&& gx_entry_text(v, digits).len() <= w
        &&& gx_entry_text(T::nzero(), digits).len() <= w
        &&& forall|i: int| 0 <= i < f.len() ==> #[trigger] g[i] == (if b <= i < b + w { t[i - b] } else { f[i] })
        &&& forall|i: int| b <= i < b + w ==> #[trigger] f[i] == z[i - b]
    })
{
    let m2 = m.insert(p, v);
    let (f, g) = (gx_number_cells(m, digits, w), gx_number_cells(m2, digits, w));
    assert forall|q: (u64, u64)| m.contains_key(q) implies (#[trigger] gx_entry_text(m[q], digits)).len() <= w by {
        assert(gx_entry_text(all[q], digits).len() <= w);
    }
    assert(gx_entry_text(all[p], digits).len() <= w);
    assert forall|q: (u64, u64)| m2.contains_key(q) implies (#[trigger] gx_entry_text(m2[q], digits)).len() <= w by {
        if q != p { assert(gx_entry_text(all[q], digits).len() <= w); }
    }
    lemma_even(m, digits, w, dim);
    lemma_even(m2, digits, w, dim);
    assert forall|x: int, y: int| 0 <= x < dim && 0 <= y < dim && (x != p.0 as int || y != p.1 as int) implies #[trigger] f(x, y) == g(x, y) by {
        assert((x as u64, y as u64) != p);
    }
    assert(w >= 0);
    lemma_grid_set(f, g, w, dim, p.0 as int, p.1 as int, dim);
}
/// the size of the text, and what goes too far on the way to it
pub proof fn lemma_num_size(dim: int, w: int, c: int)
    requires 0 < dim <= usize::MAX, 0 <= w, c == (if w + 2 > usize::MAX { usize::MAX as int } else { w + 2 })
    ensures
        dim * dim > usize::MAX ==> gx_num_size(dim, w) > usize::MAX,
        4 * dim > usize::MAX ==> gx_num_size(dim, w) > usize::MAX,
        c * (dim * dim) > usize::MAX ==> gx_num_size(dim, w) > usize::MAX,
        c * (dim * dim) + 4 * dim > usize::MAX ==> gx_num_size(dim, w) > usize::MAX,
        w + 2 <= usize::MAX ==> c * (dim * dim) + 4 * dim == gx_num_size(dim, w),
        w + 2 > usize::MAX ==> c * (dim * dim) + 4 * dim > usize::MAX,
        gx_num_size(dim, w) >= 4,
{
    let d2 = dim * dim;
    assert(d2 >= 1) by (nonlinear_arith) requires d2 == dim * dim, dim > 0;
    assert(gx_num_size(dim, w) == (w + 2) * d2 + 4 * dim) by (nonlinear_arith) requires d2 == dim * dim, gx_num_size(dim, w) == dim * (dim * (w + 2) + 4);
    assert((w + 2) * d2 >= d2) by (nonlinear_arith) requires d2 >= 1, w >= 0;
    assert((w + 2) * d2 >= c * d2) by (nonlinear_arith) requires d2 >= 1, w + 2 >= c;
    assert(c * d2 >= c) by (nonlinear_arith) requires d2 >= 1, c >= 0;
}
pub proof fn lemma_number_cells_ascii<T: crate::util::Numeric>(m: IMap<(u64, u64), T>, digits: int, w: int, dim: int)
    ensures !gx_grid(gx_number_cells(m, digits, w), dim, dim).contains('\0'), gx_ascii(gx_grid(gx_number_cells(m, digits, w), dim, dim))
{
    broadcast use axiom_number_ascii;
    let f = gx_number_cells(m, digits, w);
    assert forall|c: int, r: int| 0 <= c < dim && 0 <= r < dim implies gx_ascii(#[trigger] f(c, r)) by {
        let p = (c as u64, r as u64);
        let v = if m.contains_key(p) { m[p] } else { T::nzero() };
        assert(gx_ascii(gx_shown(v, Some(digits))));
        assert(gx_ascii(gx_shown(v, None)));
        assert(gx_ascii(gx_entry_text(v, digits)));
    }
    lemma_grid_ascii(f, dim, dim);
}
pub proof fn lemma_grid_ascii(f: spec_fn(int, int) -> Seq<char>, dim: int, n: int)
    requires forall|c: int, r: int| 0 <= c < dim && 0 <= r < dim ==> gx_ascii(#[trigger] f(c, r)), n <= dim
    ensures gx_ascii(gx_grid(f, dim, n)), !gx_grid(f, dim, n).contains('\0')
    decreases n
{
    reveal(gx_grid);
    let t = gx_grid(f, dim, n);
    if n > 0 {
        lemma_grid_ascii(f, dim, n - 1);
        lemma_grid_row_ascii(f, dim, n - 1, dim);
    }
    assert(gx_ascii(t));
    if t.contains('\0') {
        let i = choose|i: int| 0 <= i < t.len() && t[i] == '\0';
        assert(t[i] as u32 > 0);
    }
}
pub proof fn lemma_grid_row_ascii(f: spec_fn(int, int) -> Seq<char>, dim: int, r: int, n: int)
    requires forall|c: int, r: int| 0 <= c < dim && 0 <= r < dim ==> gx_ascii(#[trigger] f(c, r)), n <= dim, 0 <= r < dim
    ensures gx_ascii(gx_grid_row(f, dim, r, n))
    decreases n
{
    reveal(gx_grid_row);
    if n > 0 {
        lemma_grid_row_ascii(f, dim, r, n - 1);
        assert(gx_ascii(f(n - 1, r)));
    }
}

// ----- machine floating point (trusted: rustc/LLVM f64 operators implement IEEE-754 binary64,
// round-to-nearest-even; equality below is up to the payload of NaNs) --------------------------
use verus_builtin::{IeeeFloat, IeeeFloatCast};
use vstd::std_specs::ops::{AddSpec, SubSpec, MulSpec, DivSpec};

pub broadcast axiom fn ax_f64_add_req(x: f64, y: f64) ensures #[trigger] AddSpec::add_req(x, y);
pub broadcast axiom fn ax_f64_sub_req(x: f64, y: f64) ensures #[trigger] SubSpec::sub_req(x, y);
pub broadcast axiom fn ax_f64_mul_req(x: f64, y: f64) ensures #[trigger] MulSpec::mul_req(x, y);
pub broadcast axiom fn ax_f64_div_req(x: f64, y: f64) ensures #[trigger] DivSpec::div_req(x, y);
pub broadcast axiom fn ax_f64_add(x: f64, y: f64, o: f64)
    requires #[trigger] vstd::std_specs::ops::add_ensures::<f64>(x, y, o) ensures o == x.ieee_add(y);
pub broadcast axiom fn ax_f32_add_req(x: f32, y: f32) ensures #[trigger] AddSpec::add_req(x, y);
pub broadcast axiom fn ax_f32_add(x: f32, y: f32, o: f32)
    requires #[trigger] vstd::std_specs::ops::add_ensures::<f32>(x, y, o) ensures o == x.ieee_add(y);
pub broadcast axiom fn ax_f64_sub(x: f64, y: f64, o: f64)
    requires #[trigger] vstd::std_specs::ops::sub_ensures::<f64>(x, y, o) ensures o == x.ieee_sub(y);
pub broadcast axiom fn ax_f64_mul(x: f64, y: f64, o: f64)
    requires #[trigger] vstd::std_specs::ops::mul_ensures::<f64>(x, y, o) ensures o == x.ieee_mul(y);
pub broadcast axiom fn ax_f64_div(x: f64, y: f64, o: f64)
    requires #[trigger] vstd::std_specs::ops::div_ensures::<f64>(x, y, o) ensures o == x.ieee_div(y);
pub broadcast axiom fn ax_f64_cast_u64(x: u64, o: f64)
    requires #[trigger] vstd::float::float_cast_spec::<u64, f64>(x, o) ensures o == fl(x);
pub broadcast axiom fn ax_f64_cast_u8(x: u8, o: f64)
    requires #[trigger] vstd::float::float_cast_spec::<u8, f64>(x, o) ensures o == fl(x as u64);
pub broadcast axiom fn ax_f64_ge(x: f64, y: f64, o: bool)
    requires #[trigger] vstd::std_specs::cmp::ge_ensures::<f64>(x, y, o) ensures o == x.ieee_ge(y);
pub broadcast axiom fn ax_f64_le(x: f64, y: f64, o: bool)
    requires #[trigger] vstd::std_specs::cmp::le_ensures::<f64>(x, y, o) ensures o == x.ieee_le(y);
pub broadcast axiom fn ax_f64_gt(x: f64, y: f64, o: bool)
    requires #[trigger] vstd::std_specs::cmp::gt_ensures::<f64>(x, y, o) ensures o == x.ieee_gt(y);
pub broadcast axiom fn ax_f64_lt(x: f64, y: f64, o: bool)
    requires #[trigger] vstd::std_specs::cmp::lt_ensures::<f64>(x, y, o) ensures o == x.ieee_lt(y);
pub broadcast group group_float {
    ax_f32_add_req, ax_f32_add, ax_f64_add_req, ax_f64_sub_req, ax_f64_mul_req, ax_f64_div_req, ax_f64_add, ax_f64_sub, ax_f64_mul, ax_f64_div,
    ax_f64_cast_u64, ax_f64_cast_u8, ax_f64_ge, ax_f64_le, ax_f64_gt, ax_f64_lt
}

pub assume_specification [u64::pow] (_0: u64, _1: u32) -> (r: u64)
    requires vstd::arithmetic::power::pow(_0 as int, _1 as nat) <= u64::MAX
    ensures r == vstd::arithmetic::power::pow(_0 as int, _1 as nat);

pub open spec fn gx_max(a: int, b: int) -> int { if a >= b { a } else { b } }

/// `==` on the primitive number types (trusted: their PartialEq is the equality of the contract)
#[verifier::external_body]
pub fn gx_num_eq<T: crate::util::Numeric>(a: T, b: T) -> (r: bool)
    ensures r == T::neq(a, b)
{ a == b }

pub use super::gxk::*;
pub use super::gxf::*;

/// Axiom of the address space: hash tables whose every element occupies at least 8 bytes of
/// memory cannot hold 2^53 or more elements (a process addresses at most 2^56 bytes).
pub axiom fn axiom_address_space(t: HashMap<u64, HashSet<u64>>)
    ensures gx_cells(t@).finite() ==> gx_cells(t@).len() < 0x20_0000_0000_0000
;
pub axiom fn axiom_address_space_map<T>(t: HashMap<u64, HashMap<u64, T>>)
    ensures gx_ents(t@).dom().finite() ==> gx_ents(t@).dom().len() < 0x20_0000_0000_0000
;

pub broadcast group group_graphrox {
    lemma_map_drop_first, lemma_map_empty, lemma_map_iter, lemma_set_drop_first, lemma_set_iter, lemma_push,
    lemma_colseq_empty, lemma_colseq_drop, lemma_rowmap_empty, lemma_rowmap_drop, lemma_col_of, lemma_row_of,
    lemma_bit_zero, lemma_be64, lemma_be32, ax_map_iter_finite, ax_set_iter_finite, lemma_star_empty, lemma_star_drop, lemma_unref_drop /* MORE */
}
/// on in a few functions, and everywhere in the verifier's last attempt
pub broadcast group group_bits { lemma_mask, lemma_shift_mask, lemma_shr3, lemma_shr6, lemma_and7, lemma_and63, lemma_shl3 }
}
pub mod gxf {
use vstd::prelude::*;
use verus_builtin::{IeeeFloat, IeeeFloatCast};
/// nearest binary64 value of an integer
pub open spec fn fl(n: u64) -> f64 { IeeeFloatCast::<f64>::ieee_cast(n) }
pub proof fn lemma_fl_next(c: u64)
    ensures 1 <= c < 0x20_0000_0000_0000 ==> fl(c).ieee_add(1.0f64) == fl((c + 1) as u64)
{ assert(1 <= c < 0x20_0000_0000_0000 ==> fl(c).ieee_add(1.0f64) == fl(add(c, 1))) by (bit_vector); }
pub proof fn lemma_fl_pos(c: u64)
    ensures c >= 1 ==> !fl(c).ieee_eq(0.0f64)
{ assert(c >= 1 ==> !fl(c).ieee_eq(0.0f64)) by (bit_vector); }
pub proof fn lemma_fl_one()
    ensures fl(1) == 1.0f64
{ assert(fl(1) == 1.0f64) by (bit_vector); }
/// a number, not NaN
pub open spec fn gx_nn(x: f64) -> bool { x.ieee_eq(x) }
/// for numbers, the four comparisons say the same
pub proof fn lemma_compare(x: f64, y: f64)
    requires gx_nn(x), gx_nn(y)
    ensures x.ieee_lt(y) == !x.ieee_ge(y), y.ieee_le(x) == x.ieee_ge(y), y.ieee_gt(x) == !x.ieee_ge(y)
{
    assert(x.ieee_eq(x) && y.ieee_eq(y) ==> x.ieee_lt(y) == !x.ieee_ge(y)) by (bit_vector);
    assert(y.ieee_le(x) == x.ieee_ge(y)) by (bit_vector);
    assert(y.ieee_gt(x) == x.ieee_lt(y)) by (bit_vector);
}
/// a density is a number
pub proof fn lemma_density_nn(c: u64, b: u64)
    requires c >= 1
    ensures gx_nn(fl(c).ieee_mul(1.0f64.ieee_div(fl(b).ieee_mul(fl(b)))))
{
    assert(fl(b).ieee_eq(fl(b))) by (bit_vector);
    let x = fl(b);
    assert(x.ieee_eq(x) ==> x.ieee_mul(x).ieee_eq(x.ieee_mul(x))) by (bit_vector);
    let d = x.ieee_mul(x);
    assert(d.ieee_eq(d) ==> 1.0f64.ieee_div(d).ieee_eq(1.0f64.ieee_div(d))) by (bit_vector);
    let y = 1.0f64.ieee_div(d);
    assert(c >= 1 && y.ieee_eq(y) ==> fl(c).ieee_mul(y).ieee_eq(fl(c).ieee_mul(y))) by (bit_vector);
}
/// no threshold is both above the largest and below the smallest
pub proof fn lemma_threshold(t: f64)
    ensures !(t.ieee_gt(1.0f64) && t.ieee_lt(1.0f64.ieee_div(fl(1000000000000000000u64)))),
        gx_nn(1.0f64.ieee_div(fl(1000000000000000000u64))), gx_nn(1.0f64),
        !(t.ieee_ge(1.0f64) && t.ieee_le(1.0f64.ieee_div(fl(1000000000000000000u64)))),
        t.ieee_ge(1.0f64) && !t.ieee_gt(1.0f64) ==> t == 1.0f64,
        t.ieee_gt(1.0f64) ==> t.ieee_ge(1.0f64), t.ieee_lt(1.0f64.ieee_div(fl(1000000000000000000u64))) ==> t.ieee_le(1.0f64.ieee_div(fl(1000000000000000000u64))) && t.ieee_lt(1.0f64),
        1.0f64.ieee_div(fl(1000000000000000000u64)).ieee_lt(1.0f64), 1.0f64.ieee_div(fl(1000000000000000000u64)).ieee_le(1.0f64), 1.0f64.ieee_gt(1.0f64.ieee_div(fl(1000000000000000000u64))), 1.0f64.ieee_ge(1.0f64.ieee_div(fl(1000000000000000000u64))),
        t.ieee_le(1.0f64.ieee_div(fl(1000000000000000000u64))) && !t.ieee_lt(1.0f64.ieee_div(fl(1000000000000000000u64))) ==> t == 1.0f64.ieee_div(fl(1000000000000000000u64)),
{
    assert(!(t.ieee_ge(1.0f64) && t.ieee_le(1.0f64.ieee_div(fl(1000000000000000000u64))))) by (bit_vector);
    assert(t.ieee_ge(1.0f64) && !t.ieee_gt(1.0f64) ==> t == 1.0f64) by (bit_vector);
    assert(t.ieee_gt(1.0f64) ==> t.ieee_ge(1.0f64)) by (bit_vector);
    assert(t.ieee_lt(1.0f64.ieee_div(fl(1000000000000000000u64))) ==> t.ieee_le(1.0f64.ieee_div(fl(1000000000000000000u64)))) by (bit_vector);
    assert(t.ieee_lt(1.0f64.ieee_div(fl(1000000000000000000u64))) ==> t.ieee_lt(1.0f64)) by (bit_vector);
    assert(1.0f64.ieee_div(fl(1000000000000000000u64)).ieee_lt(1.0f64) && 1.0f64.ieee_div(fl(1000000000000000000u64)).ieee_le(1.0f64) && 1.0f64.ieee_gt(1.0f64.ieee_div(fl(1000000000000000000u64))) && 1.0f64.ieee_ge(1.0f64.ieee_div(fl(1000000000000000000u64)))) by (bit_vector);
    assert(t.ieee_le(1.0f64.ieee_div(fl(1000000000000000000u64))) && !t.ieee_lt(1.0f64.ieee_div(fl(1000000000000000000u64))) ==> t == 1.0f64.ieee_div(fl(1000000000000000000u64))) by (bit_vector);
    assert(!(t.ieee_gt(1.0f64) && t.ieee_lt(1.0f64.ieee_div(fl(1000000000000000000u64))))) by (bit_vector);
    let m = 1.0f64.ieee_div(fl(1000000000000000000u64));
    assert(1.0f64.ieee_div(fl(1000000000000000000u64)).ieee_eq(1.0f64.ieee_div(fl(1000000000000000000u64)))) by (bit_vector);
    assert(1.0f64.ieee_eq(1.0f64)) by (bit_vector);
}
/// c of at most n*n edges over the area reach l over the area less the margin exactly when c >= l
pub open spec fn gx_reaches(c: u64, l: u64, n: u64) -> bool {
    fl(c).ieee_mul(1.0f64.ieee_div(fl(n).ieee_mul(fl(n)))).ieee_ge(fl(l).ieee_div(fl((n * n) as u64)).ieee_sub(0.00001f64)) == (c >= l)
}
pub proof fn lemma_reach(c: u64, l: u64, n: u64)
    requires 1 <= n <= 8, c <= n * n, 1 <= l <= 64
    ensures gx_reaches(c, l, n)
{
    if n == 1 { super::gxr1::lemma_reach1(c, l); }
    else if n == 2 { super::gxr2::lemma_reach2(c, l); }
    else if n == 3 { super::gxr3::lemma_reach3(c, l); }
    else if n == 4 { super::gxr4::lemma_reach4(c, l); }
    else if n == 5 { super::gxr5::lemma_reach5(c, l); }
    else if n == 6 { super::gxr6::lemma_reach6(c, l); }
    else if n == 7 { super::gxr7::lemma_reach7(c, l); }
    else if n == 8 { super::gxr8::lemma_reach8(c, l); }
}
/// the same for the other ways to compare
pub proof fn lemma_reaches(c: u64, l: u64, n: u64)
    requires 1 <= n <= 8, 1 <= c <= n * n, 1 <= l <= 64
    ensures gx_reaches(c, l, n),
        fl(c).ieee_mul(1.0f64.ieee_div(fl(n).ieee_mul(fl(n)))).ieee_lt(fl(l).ieee_div(fl((n * n) as u64)).ieee_sub(0.00001f64)) == (c < l),
        fl(l).ieee_div(fl((n * n) as u64)).ieee_sub(0.00001f64).ieee_le(fl(c).ieee_mul(1.0f64.ieee_div(fl(n).ieee_mul(fl(n))))) == (c >= l),
        fl(l).ieee_div(fl((n * n) as u64)).ieee_sub(0.00001f64).ieee_gt(fl(c).ieee_mul(1.0f64.ieee_div(fl(n).ieee_mul(fl(n))))) == (c < l),
{
    lemma_reach(c, l, n);
    lemma_density_nn(c, n);
    assert(1 <= n * n <= 64) by (nonlinear_arith) requires 1 <= n <= 8;
    super::gxr9::lemma_cut_nn(l, (n * n) as u64);
    lemma_compare(fl(c).ieee_mul(1.0f64.ieee_div(fl(n).ieee_mul(fl(n)))), fl(l).ieee_div(fl((n * n) as u64)).ieee_sub(0.00001f64));
}
}
pub mod gxr1 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
pub proof fn lemma_reach1(c: u64, l: u64)
    requires c <= 1, 1 <= l <= 64
    ensures gx_reaches(c, l, 1)
{ assert(c <= 1 && 1 <= l && l <= 64 ==> fl(c).ieee_mul(1.0f64.ieee_div(fl(1).ieee_mul(fl(1)))).ieee_ge(fl(l).ieee_div(fl(1)).ieee_sub(0.00001f64)) == (c >= l)) by (bit_vector); }
}
pub mod gxr2 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
pub proof fn lemma_reach2(c: u64, l: u64)
    requires c <= 4, 1 <= l <= 64
    ensures gx_reaches(c, l, 2)
{ assert(c <= 4 && 1 <= l && l <= 64 ==> fl(c).ieee_mul(1.0f64.ieee_div(fl(2).ieee_mul(fl(2)))).ieee_ge(fl(l).ieee_div(fl(4)).ieee_sub(0.00001f64)) == (c >= l)) by (bit_vector); }
}
pub mod gxr3 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
pub proof fn lemma_reach3(c: u64, l: u64)
    requires c <= 9, 1 <= l <= 64
    ensures gx_reaches(c, l, 3)
{ assert(c <= 9 && 1 <= l && l <= 64 ==> fl(c).ieee_mul(1.0f64.ieee_div(fl(3).ieee_mul(fl(3)))).ieee_ge(fl(l).ieee_div(fl(9)).ieee_sub(0.00001f64)) == (c >= l)) by (bit_vector); }
}
pub mod gxr4 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
pub proof fn lemma_reach4(c: u64, l: u64)
    requires c <= 16, 1 <= l <= 64
    ensures gx_reaches(c, l, 4)
{ assert(c <= 16 && 1 <= l && l <= 64 ==> fl(c).ieee_mul(1.0f64.ieee_div(fl(4).ieee_mul(fl(4)))).ieee_ge(fl(l).ieee_div(fl(16)).ieee_sub(0.00001f64)) == (c >= l)) by (bit_vector); }
}
pub mod gxr5 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
pub proof fn lemma_reach5(c: u64, l: u64)
    requires c <= 25, 1 <= l <= 64
    ensures gx_reaches(c, l, 5)
{ assert(c <= 25 && 1 <= l && l <= 64 ==> fl(c).ieee_mul(1.0f64.ieee_div(fl(5).ieee_mul(fl(5)))).ieee_ge(fl(l).ieee_div(fl(25)).ieee_sub(0.00001f64)) == (c >= l)) by (bit_vector); }
}
pub mod gxr6 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
pub proof fn lemma_reach6(c: u64, l: u64)
    requires c <= 36, 1 <= l <= 64
    ensures gx_reaches(c, l, 6)
{ assert(c <= 36 && 1 <= l && l <= 64 ==> fl(c).ieee_mul(1.0f64.ieee_div(fl(6).ieee_mul(fl(6)))).ieee_ge(fl(l).ieee_div(fl(36)).ieee_sub(0.00001f64)) == (c >= l)) by (bit_vector); }
}
pub mod gxr7 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
pub proof fn lemma_reach7(c: u64, l: u64)
    requires c <= 49, 1 <= l <= 64
    ensures gx_reaches(c, l, 7)
{ assert(c <= 49 && 1 <= l && l <= 64 ==> fl(c).ieee_mul(1.0f64.ieee_div(fl(7).ieee_mul(fl(7)))).ieee_ge(fl(l).ieee_div(fl(49)).ieee_sub(0.00001f64)) == (c >= l)) by (bit_vector); }
}
pub mod gxr8 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
pub proof fn lemma_reach8(c: u64, l: u64)
    requires c <= 64, 1 <= l <= 64
    ensures gx_reaches(c, l, 8)
{ assert(c <= 64 && 1 <= l && l <= 64 ==> fl(c).ieee_mul(1.0f64.ieee_div(fl(8).ieee_mul(fl(8)))).ieee_ge(fl(l).ieee_div(fl(64)).ieee_sub(0.00001f64)) == (c >= l)) by (bit_vector); }
}
pub mod gxr9 {
use vstd::prelude::*;
use super::gxf::*;
use verus_builtin::IeeeFloat;
/// the cut of a compression is a number
pub proof fn lemma_cut_nn(l: u64, m: u64)
    requires m >= 1
    ensures gx_nn(fl(l).ieee_div(fl(m)).ieee_sub(0.00001f64))
{
    assert(m >= 1 ==> fl(l).ieee_div(fl(m)).ieee_eq(fl(l).ieee_div(fl(m)))) by (bit_vector);
    let x = fl(l).ieee_div(fl(m));
    assert(x.ieee_eq(x) ==> x.ieee_sub(0.00001f64).ieee_eq(x.ieee_sub(0.00001f64))) by (bit_vector);
}
}
pub mod gxk {
use super::gx::*;
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
broadcast use {vstd::std_specs::hash::group_hash_axioms, super::gx::group_graphrox};
/// the keys of a hash map, each once (proved)
pub trait GxKeys {
    spec fn gx_dom(&self) -> Set<u64>;
    fn gx_keys(&self) -> (r: Vec<u64>)
        ensures r@.no_duplicates(), forall|k: u64| #[trigger] r@.contains(k) <==> self.gx_dom().contains(k);
}
impl<V> GxKeys for HashMap<u64, V> {
    open spec fn gx_dom(&self) -> Set<u64> { self@.dom() }
    fn gx_keys(&self) -> (r: Vec<u64>)
    {
        let mut v: Vec<u64> = Vec::new();
        let mut it = self.iter();
        loop
            invariant
                it.obeys_prophetic_iter_laws(), it.decrease() is Some, gx_uk(it.remaining()), v@.no_duplicates(),
                gx_map(it.remaining()).dom().subset_of(self@.to_imap().dom()),
                forall|k: u64| #[trigger] v@.contains(k) <==> self@.contains_key(k) && !gx_map(it.remaining()).contains_key(k),
            decreases it.decrease().unwrap()
        {
            match it.next() {
                None => break,
                Some((k, _)) => { v.push(*k); }
            }
        }
        v
    }
}

}
}
