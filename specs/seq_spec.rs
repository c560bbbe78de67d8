pub mod seq_spec {
use vstd::prelude::*;
use crate::prelude::*;
// ---------------------------------------------------------------- concatenations
pub open spec fn cat<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last(), f) + f(s.last()) } }
/// where item k starts
pub open spec fn catoff<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>, k: int) -> int { cat(s.take(k), f).len() as int }
pub proof fn cat_push<A>(s: Seq<A>, x: A, f: spec_fn(A) -> Seq<u8>)
    ensures cat(s.push(x), f) == cat(s, f) + f(x), cat(s.push(x), f).len() == cat(s, f).len() + f(x).len(),
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn cat_take<A>(s: Seq<A>, k: int, f: spec_fn(A) -> Seq<u8>)
    requires 0 <= k < s.len(),
    ensures cat(s.take(k + 1), f) == cat(s.take(k), f) + f(s[k]), catoff(s, f, k + 1) == catoff(s, f, k) + f(s[k]).len(),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
pub proof fn cat_all<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>)
    ensures s.take(s.len() as int) == s, s.take(0) == Seq::<A>::empty(), cat(s.take(0), f) == Seq::<u8>::empty(), cat(s.take(s.len() as int), f) == cat(s, f),
{
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::empty());
}
pub proof fn cat_plus<A>(s: Seq<A>, t: Seq<A>, f: spec_fn(A) -> Seq<u8>)
    ensures cat(s + t, f) == cat(s, f) + cat(t, f),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); assert(cat(s, f) + cat(t, f) =~= cat(s, f)); }
    else {
        cat_plus(s, t.drop_last(), f);
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert(cat(s, f) + cat(t, f) =~= cat(s, f) + cat(t.drop_last(), f) + f(t.last()));
    }
}
/// item k is where it should be
pub proof fn cat_at<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>, k: int)
    requires 0 <= k < s.len(),
    ensures 0 <= catoff(s, f, k), catoff(s, f, k) + f(s[k]).len() == catoff(s, f, k + 1), catoff(s, f, k + 1) <= cat(s, f).len(),
        cat(s, f).subrange(catoff(s, f, k), catoff(s, f, k) + f(s[k]).len()) == f(s[k]),
{
    cat_take(s, k, f);
    let t = s.take(k + 1);
    let u = s.skip(k + 1);
    assert(s =~= t + u);
    cat_plus(t, u, f);
    assert(cat(s, f).subrange(catoff(s, f, k), catoff(s, f, k) + f(s[k]).len()) =~= f(s[k]));
}
pub proof fn cat_mono<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>, j: int, k: int)
    requires 0 <= j <= k <= s.len(),
    ensures catoff(s, f, j) <= catoff(s, f, k), catoff(s, f, k) <= cat(s, f).len(),
    decreases s.len() - j,
{
    cat_all(s, f);
    if j < k { cat_take(s, j, f); cat_mono(s, f, j + 1, k); }
    else if k < s.len() { cat_take(s, k, f); cat_mono(s, f, k + 1, s.len() as int); }
}
/// equally long items
pub proof fn cat_width<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>, w: int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]).len() == w,
    ensures cat(s, f).len() == w * s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies f(#[trigger] t[i]).len() == w by { assert(t[i] == s[i]); }
        cat_width(t, f, w);
        assert(w * s.len() == w * t.len() + w) by (nonlinear_arith) requires s.len() == t.len() + 1;
    } else { assert(w * 0 == 0); }
}
pub proof fn cat_width_off<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>, w: int, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]).len() == w,
    ensures catoff(s, f, k) == w * k,
{
    assert forall|i: int| 0 <= i < s.take(k).len() implies f(#[trigger] s.take(k)[i]).len() == w by { assert(s.take(k)[i] == s[i]); }
    cat_width(s.take(k), f, w);
}
/// equal items give equal bytes
pub proof fn cat_same<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>, t: Seq<B>, g: spec_fn(B) -> Seq<u8>)
    requires s.len() == t.len(), forall|i: int| #![trigger s[i]] #![trigger t[i]] 0 <= i < s.len() ==> f(s[i]) == g(t[i]),
    ensures cat(s, f) == cat(t, g),
    decreases s.len(),
{
    if s.len() > 0 {
        let s1 = s.drop_last();
        let t1 = t.drop_last();
        assert forall|i: int| #![trigger s1[i]] #![trigger t1[i]] 0 <= i < s1.len() implies f(s1[i]) == g(t1[i]) by { assert(s1[i] == s[i]); }
        cat_same(s1, f, t1, g);
        assert(f(s[s.len() - 1]) == g(t[t.len() - 1]));
    }
}

/// a longer item in the middle
pub proof fn cat_update<A>(s: Seq<A>, f: spec_fn(A) -> Seq<u8>, i: int, x: A)
    requires 0 <= i < s.len(),
    ensures cat(s.update(i, x), f).len() == cat(s, f).len() - f(s[i]).len() + f(x).len(),
    decreases s.len(),
{
    let t = s.update(i, x);
    if i == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); }
    else { assert(t.drop_last() =~= s.drop_last().update(i, x)); cat_update(s.drop_last(), f, i, x); }
}
// ---------------------------------------------------------------- sums
pub open spec fn sum<A>(s: Seq<A>, f: spec_fn(A) -> int) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last(), f) + f(s.last()) } }
pub proof fn sum_take<A>(s: Seq<A>, f: spec_fn(A) -> int, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) >= 0,
    ensures s.take(0) == Seq::<A>::empty(), sum(s.take(0), f) == 0, 0 <= sum(s.take(k), f) <= sum(s, f), s.take(s.len() as int) == s,
        k < s.len() ==> sum(s.take(k + 1), f) == sum(s.take(k), f) + f(s[k]) && sum(s.take(k + 1), f) <= sum(s, f),
    decreases s.len() - k,
{
    assert(s.take(0) =~= Seq::empty());
    assert(s.take(s.len() as int) =~= s);
    sum_pos(s.take(k), f);
    if k < s.len() {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        sum_take(s, f, k + 1);
    }
}
pub proof fn sum_pos<A>(s: Seq<A>, f: spec_fn(A) -> int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) >= 0,
    ensures sum(s, f) >= 0,
    decreases s.len(),
{
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) >= 0 by { assert(s.drop_last()[i] == s[i]); } sum_pos(s.drop_last(), f); assert(f(s[s.len() - 1]) >= 0); }
}

// ---------------------------------------------------------------- string tables
pub open spec fn fstr() -> spec_fn(Seq<char>) -> Seq<u8> { |s: Seq<char>| utf8(s) + seq![0u8] }
/// the offset of string i in the table
pub open spec fn stroff(s: Seq<Seq<char>>, i: int) -> int { 1 + catoff(s, fstr(), i) }
/// a NUL, then the strings, each with a NUL
pub open spec fn strtab(s: Seq<Seq<char>>) -> Seq<u8> { seq![0u8] + cat(s, fstr()) }
/// the offset is where the name is
#[verifier::opaque]
pub open spec fn named(s: Seq<Seq<char>>, name: Seq<char>, off: int) -> bool { sfind(s, name) < s.len() && off == stroff(s, sfind(s, name)) }
/// reading the table at the offset gives the name
pub open spec fn resolves(tab: Seq<u8>, name: Seq<char>, off: int) -> bool {
    0 <= off && off + utf8(name).len() < tab.len() && tab.subrange(off, off + utf8(name).len() as int) == utf8(name) && tab[off + utf8(name).len()] == 0
}
pub proof fn strtab_at(s: Seq<Seq<char>>, name: Seq<char>, off: int)
    requires named(s, name, off),
    ensures resolves(strtab(s), name, off),
{
    reveal(named);
    sfind_lemma(s, name);
    let i = sfind(s, name);
    let f = fstr();
    cat_at(s, f, i);
    let o = catoff(s, f, i);
    let c = cat(s, f);
    let n = utf8(name).len() as int;
    let x = c.subrange(o, o + n + 1);
    assert(x == utf8(name) + seq![0u8]);
    assert(strtab(s).subrange(off, off + n) =~= utf8(name)) by { assert forall|j: int| 0 <= j < n implies strtab(s)[off + j] == utf8(name)[j] by { assert(x[j] == c[o + j]); } }
    assert(x[n] == c[o + n]);
    assert(x[n] == 0u8);
}
pub proof fn strtab_ends(s: Seq<Seq<char>>)
    ensures strtab(s).len() == stroff(s, s.len() as int), strtab(s).len() > 0, strtab(s)[0] == 0u8, strtab(s).last() == 0u8,
    decreases s.len(),
{
    cat_all(s, fstr());
    if s.len() > 0 { cat_at(s, fstr(), s.len() - 1); assert(cat(s, fstr()) == cat(s.drop_last(), fstr()) + (utf8(s.last()) + seq![0u8])); }
}
pub proof fn sfind_grow(s: Seq<Seq<char>>, t: Seq<Seq<char>>, x: Seq<char>)
    requires s.is_prefix_of(t), sfind(s, x) < s.len(),
    ensures sfind(t, x) == sfind(s, x),
{
    sfind_lemma(s, x);
    sfind_lemma(t, x);
    let i = sfind(s, x);
    let j = sfind(t, x);
    if j < i { assert(t[j] == s[j]); } else if i < j { assert(t[i] == s[i]); }
}
pub broadcast proof fn named_grow(s: Seq<Seq<char>>, t: Seq<Seq<char>>, x: Seq<char>, off: int)
    requires #[trigger] s.is_prefix_of(t), #[trigger] named(s, x, off),
    ensures named(t, x, off), sfind(t, x) == sfind(s, x),
{
    reveal(named);
    sfind_grow(s, t, x);
    sfind_lemma(s, x);
    let i = sfind(s, x);
    assert(s.take(i) =~= t.take(i));
}
/// offsets and total size are those of the strings
pub open spec fn str_wf(s: Seq<Seq<char>>, o: Map<usize, usize>, size: int) -> bool {
    &&& forall|i: usize| #[trigger] o.contains_key(i) <==> i < s.len()
    &&& forall|i: usize| i < s.len() ==> #[trigger] o[i] == stroff(s, i as int)
    &&& size == stroff(s, s.len() as int)
}
/// interning
pub proof fn str_intern(s: Seq<Seq<char>>, o: Map<usize, usize>, size: int, x: Seq<char>)
    requires str_wf(s, o, size), s.len() < 0x1_0000_0000_0000_0000,
    ensures
        s.is_prefix_of(intern(s, x)), sfind(intern(s, x), x) == sfind(s, x), 0 <= sfind(s, x) < intern(s, x).len(), sfind(s, x) <= s.len(),
        sfind(s, x) < s.len() ==> intern(s, x) == s && o.contains_key(sfind(s, x) as usize) && named(s, x, o[sfind(s, x) as usize] as int),
        sfind(s, x) >= s.len() ==> !o.contains_key(s.len() as usize) && intern(s, x) == s.push(x) && named(s.push(x), x, size)
            && (s.len() < 0x1_0000_0000_0000_0000 && 0 <= size < 0x1_0000_0000_0000_0000 ==> str_wf(s.push(x), o.insert(s.len() as usize, size as usize), size + utf8(x).len() + 1)),
        size > 0,
{
    reveal(named);
    sfind_lemma(s, x);
    sfind_lemma(intern(s, x), x);
    let t = intern(s, x);
    let i = sfind(s, x);
    assert(size > 0);
    if i < s.len() { assert(o.contains_key(i as usize)); }
    else {
        let p = s.push(x);
        let j = sfind(p, x);
        if j < s.len() { assert(p[j] == s[j]); }
        assert(p[s.len() as int] == x);
        assert(p.take(s.len() as int) =~= s);
        assert(s.take(s.len() as int) =~= s);
        cat_push(s, x, fstr());
        assert(p.take(p.len() as int) =~= p);
        let o2 = o.insert(s.len() as usize, size as usize);
        if 0 <= size < 0x1_0000_0000_0000_0000 && s.len() < 0x1_0000_0000_0000_0000 {
            assert forall|i: usize| i < p.len() implies #[trigger] o2[i] == stroff(p, i as int) by { if i < s.len() { assert(p.take(i as int) =~= s.take(i as int)); assert(o[i] == stroff(s, i as int)); } }
        }
    }
}

/// interning, when the map may or may not have the name
pub broadcast proof fn str_interned(s: Seq<Seq<char>>, o: Map<usize, usize>, size: int, x: Seq<char>)
    requires #[trigger] str_wf(s, o, size), s.len() < mem(),
    ensures
        s.is_prefix_of(#[trigger] intern(s, x)), sfind(intern(s, x), x) == sfind(s, x), 0 <= sfind(s, x) < intern(s, x).len(), sfind(s, x) <= s.len(), size > 0, intern(s, x).len() <= s.len() + 1,
        sfind(s, x) < s.len() ==> intern(s, x) == s && o.contains_key(sfind(s, x) as usize) && named(s, x, o[sfind(s, x) as usize] as int) && o[sfind(s, x) as usize] < size && o.insert(sfind(s, x) as usize, o[sfind(s, x) as usize]) == o,
        sfind(s, x) >= s.len() ==> !o.contains_key(sfind(s, x) as usize) && intern(s, x) == s.push(x) && named(s.push(x), x, size)
            && (size < 0x1_0000_0000_0000_0000 ==> str_wf(s.push(x), o.insert(sfind(s, x) as usize, size as usize), size + utf8(x).len() + 1)),
{
    str_intern(s, o, size, x);
    if sfind(s, x) < s.len() {
        let i = sfind(s, x) as usize;
        assert(o.insert(i, o[i]) =~= o);
        cat_mono(s, fstr(), i + 1, s.len() as int);
        cat_take(s, i as int, fstr());
    }
}
pub proof fn str_new()
    ensures str_wf(Seq::empty(), Map::empty(), 1),
{
    assert(Seq::<Seq<char>>::empty().take(0) =~= Seq::empty());
}

// ---------------------------------------------------------------- files written in order
/// bytes at position p after what is there, with zeros between
pub open spec fn app(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> { if b.len() == 0 { d } else { d + zeros(p - d.len()) + b } }
pub open spec fn sub_is(b: Seq<u8>, off: int, x: Seq<u8>) -> bool { 0 <= off && off + x.len() <= b.len() && b.subrange(off, off + x.len() as int) == x }
pub proof fn app_step(d: Seq<u8>, p: int, b: Seq<u8>, c: Seq<u8>)
    requires p >= d.len(), c.len() > 0,
    ensures put(app(d, p, b), p + b.len(), c) == app(d, p, b + c), app(d, p, b + c).len() == p + b.len() + c.len(),
{
    assert(put(app(d, p, b), p + b.len(), c) =~= app(d, p, b + c));
}
pub proof fn put_end(d: Seq<u8>, b: Seq<u8>)
    ensures put(d, d.len() as int, b) == d + b,
{
    assert(put(d, d.len() as int, b) =~= d + b);
}
pub proof fn app_keeps(d: Seq<u8>, p: int, b: Seq<u8>, off: int, x: Seq<u8>)
    requires p >= d.len(),
    ensures app(d, p, b).len() >= d.len(), b.len() > 0 ==> app(d, p, b).len() == p + b.len(), sub_is(d, off, x) ==> sub_is(app(d, p, b), off, x), b.len() > 0 ==> sub_is(app(d, p, b), p, b),
{
    let r = app(d, p, b);
    if sub_is(d, off, x) { assert(r.subrange(off, off + x.len() as int) =~= d.subrange(off, off + x.len() as int)); }
    if b.len() > 0 { assert(r.subrange(p, p + b.len() as int) =~= b); }
}
pub proof fn sub_sub(b: Seq<u8>, off: int, x: Seq<u8>, o2: int, y: Seq<u8>)
    requires sub_is(b, off, x), sub_is(x, o2, y),
    ensures sub_is(b, off + o2, y),
{
    assert(b.subrange(off + o2, off + o2 + y.len() as int) =~= b.subrange(off, off + x.len() as int).subrange(o2, o2 + y.len() as int));
}

// ---------------------------------------------------------------- alignment
/// the next multiple of a
pub open spec fn up(x: int, a: int) -> int { if x % a == 0 { x } else { x + (a - x % a) } }
pub broadcast proof fn up_lemma(x: int, a: int)
    requires x >= 0, a > 0,
    ensures #![trigger up(x, a)] up(x, a) % a == 0, x <= up(x, a) < x + a, 0 <= x % a < a,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, a);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, a);
    if x % a != 0 {
        let q = x / a;
        assert(x + (a - x % a) == a * (q + 1)) by (nonlinear_arith) requires x == a * q + x % a;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, a);
        assert(a * (q + 1) == (q + 1) * a) by (nonlinear_arith);
    }
}
/// the usual ways to write it
pub proof fn up_div(x: int, a: int)
    requires x >= 0, a > 0,
    ensures (x + a - 1) / a * a == up(x, a), (x + (a - 1)) / a * a == up(x, a), x + (a - x % a) % a == up(x, a), (x + a - 1) - (x + a - 1) % a == up(x, a), 0 <= (x + a - 1) / a <= x + a - 1,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, a);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, a);
    let q = x / a;
    let r = x % a;
    if r == 0 {
        assert(q * a == a * q) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + a - 1, a, q, a - 1);
        assert(a % a == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(a); }
    } else {
        assert(x + a - 1 == a * (q + 1) + (r - 1)) by (nonlinear_arith) requires x == a * q + r;
        assert(a * (q + 1) == (q + 1) * a) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + a - 1, a, q + 1, r - 1);
        vstd::arithmetic::div_mod::lemma_small_mod((a - r) as nat, a as nat);
        assert(x + (a - r) == a * (q + 1)) by (nonlinear_arith) requires x == a * q + r;
    }
    assert((x + a - 1) / a <= x + a - 1) by (nonlinear_arith) requires x + a - 1 >= 0, a > 0;
    assert(0 <= (x + a - 1) / a) by (nonlinear_arith) requires x + a - 1 >= 0, a > 0;
}
}
