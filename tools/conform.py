#!/usr/bin/env python3
"""Turn the assumed encodings and constants of specs/prelude.rs (module goblin) into conform/src/gen.rs: executable
copies of the same text, next to the real goblin.  Textual, so that what is compared is what is assumed.
    conform.py         write gen.rs
    conform.py check   the same, and run Kani on every harness
    conform.py prove   the same, and write PROVED.json"""
import re, sys, os, json, hashlib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def braces(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{': d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0: return j
def goblin_text():
    s = open(V + '/specs/prelude.rs').read()
    i = s.index('pub mod goblin {')
    return s[i:braces(s, i + 15) + 1], s
def modules(t):
    out = []
    def go(path, a, b):
        for m in re.finditer(r'pub mod (\w+) \{', t[a:b]):
            i = a + m.start()
            if any(i < e for _, _, e in [(0, 0, x[2]) for x in out if x[0] == path + [m.group(1)]]): continue
            j = braces(t, i)
            out.append((path + [m.group(1)], i, j))
    go([], 0, len(t))
    # nesting by containment
    res = []
    for p, i, j in out:
        full = [q[-1] for q, a, b in out if a < i and b > j] + [p[-1]]
        res.append((full, i, j))
    return res
def path_at(mods, i):
    best = max((m for m in mods if m[1] <= i <= m[2]), key=lambda m: m[1])
    return '::'.join(best[0])
def spec_expr(e):
    e = e.replace('crate::prelude::', '').replace(' as int', ' as i128').replace('.big()', '.is_big()')
    e = re.sub(r'h\.e_ident@', 'B::of(&h.e_ident)', e)
    e = re.sub(r'(h\.r_sym) \*', r'\1 as i128 *', e)
    e = re.sub(r'\+ (h\.r_type)\b', r'+ \1 as i128', e)
    e = re.sub(r'seq!\[([^\]]*)\]', r'B::of(&[\1])', e)
    e = re.sub(r'\(([^()]*) ==> (\S+) <= ([^()]*?) < (\S+)\)', r'(!(\1) || (\2 <= \3 && \3 < \4))', e)
    e = e.replace(' is Some', '.is_some()').replace('->Some_0', '.unwrap()')
    return e
def main():
    t, whole = goblin_text()
    mods = modules(t)
    o = ['// generated by tools/conform.py from specs/prelude.rs', 'use crate::b::*;', 'use goblin::container::{Container, Ctx, Endian};', 'use scroll::{IOwrite, Pwrite};', '']
    n = 0
    for m in re.finditer(r'pub const (\w+): (\w+) = ([^;]+);', t):
        p = path_at(mods, m.start()).replace('goblin', '::goblin', 1)
        if m.group(1).startswith('LC_SEGMENT'): p = '::goblin::mach::load_command'  # (private in goblin's segment.rs)
        o.append('const _: () = assert!(%s::%s as u64 == %s);' % (p, m.group(1), m.group(3)))
        n += 1
    # struct fields
    fields = {}
    for m in re.finditer(r"pub struct (\w+)(<'a>)? \{ ([^}]*) \}", t):
        fields[(path_at(mods, m.start()), m.group(1))] = [f.split(':')[0].replace('pub', '').strip() for f in re.split(r', (?=pub )', m.group(3))]
    har = []
    for m in re.finditer(r'pub open spec fn (enc_\w+)\(h: (\w+), c: ([^)]*\)?)\) -> Seq<u8> \{', t):
        name, ty, cty = m.group(1), m.group(2), m.group(3)
        p = path_at(mods, m.start())
        real = {'MSectV': 'Section', 'SegV': 'Segment'}.get(ty, ty)
        j = braces(t, m.end() - 1)
        body = spec_expr(t[m.end():j])
        k = t.index('open spec fn fits(self', j)
        kb = t.index('{', k)
        fits = spec_expr(t[kb + 1:braces(t, kb)]).replace('self.', 'h.')
        fits = fits.replace('h.e_ident == ident(c)', 'h.e_ident == ident(c)')
        g = 'goblin::' + p.split('::', 1)[1] + '::' + real
        g = '::' + g
        fs = fields[(p, real)]
        lt = "<'static>" if real == 'Segment' else ''
        o.append('pub fn %s(h: &%s%s, c: %s) -> B { %s }' % (name, g, lt, cty, body))
        o.append('pub fn %s_fits(h: &%s%s, c: %s) -> bool { %s }' % (name, g, lt, cty, fits))
        init = ', '.join('%s: %s' % (f, '&[]' if f == 'data' else 'crate::any()') for f in fs)
        if real == 'Segment':  # it has private fields, which are not encoded
            o.append('pub fn %s_any() -> %s%s { let mut s = %s::new(Ctx { container: if crate::any::<u8>() %% 2 == 0 { Container::Big } else { Container::Little }, le: Endian::Little }, &[]); %s s }' % (name, g, lt, g, ' '.join('s.%s = crate::any();' % f for f in fs if f != 'data')))
        else:
            o.append('pub fn %s_any() -> %s%s { %s { %s } }' % (name, g, lt, g, init))
        har.append((name, cty))
    i = t.index('pub open spec fn ident(c: Ctx)')
    o.append('pub fn ident(c: Ctx) -> [u8; 16] ' + spec_expr(t[t.index('{', i):braces(t, t.index('{', i)) + 1]))
    for m in re.finditer(r'pub open spec fn (\w+size|relsize)\(([^)]*)\) -> int \{', t):
        j = braces(t, m.end() - 1)
        o.append('pub fn %s(%s) -> i128 { %s }' % (m.group(1), m.group(2), spec_expr(t[m.end():j])))
    names = []
    for name, cty in har:
        for big in (True, False):
            for le in (True, False):
                for rela in ((True, False) if 'bool' in cty else (None,)):
                    if cty == 'Endian' and not big: continue
                    hn = 'h_%s_%s_%s%s' % (name, 64 if big else 32, 'le' if le else 'be', '' if rela is None else '_rela' if rela else '_rel')
                    c = 'Ctx { container: Container::%s, le: Endian::%s }' % ('Big' if big else 'Little', 'Little' if le else 'Big')
                    if cty == 'Endian': c = 'Endian::%s' % ('Little' if le else 'Big')
                    if rela is not None: c = '(%s, %s)' % ('true' if rela else 'false', c)
                    o.append('#[cfg_attr(kani, kani::proof)] #[cfg_attr(kani, kani::unwind(90))]\npub fn %s() { let c: %s = %s; let %sh = %s_any(); %sif !%s_fits(&h, c) { return } let e = %s(&h, c); let mut buf = [0xa5u8; 96]; crate::write!(buf, h, c, e.n); let mut i = 0; while i < e.n { assert!(buf[i] == e.a[i]); i += 1 } }' % (hn, cty, c, 'mut ' if name == 'enc_header' else '', name, 'h.e_ident = ident(c); ' if name == 'enc_header' else '', name, name))
                    names.append(hn)
    o.append('pub const HARNESSES: &[(&str, fn())] = &[%s];' % ', '.join('("%s", %s)' % (x, x) for x in names))
    o.append('pub const CONSTANTS: usize = %d;' % n)
    text = '\n'.join(o) + '\n'
    f = V + '/conform/src/gen.rs'
    if not os.path.exists(f) or open(f).read() != text: open(f, 'w').write(text)
    return text, names, n
if __name__ == '__main__':
    text, names, n = main()
    if sys.argv[1:] in (['prove'], ['check']):
        env = dict(os.environ, CARGO_NET_OFFLINE='true')
        r = subprocess.run(['cargo', 'kani', '-j', '4', '--output-format', 'terse', '--target-dir', V + '/conform/target'], cwd=V + '/conform', env=env, capture_output=True, text=True, timeout=3000)
        out = r.stdout + r.stderr
        m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total', out)
        print(m.group(0) if m else out[-3000:])
        if not m or m.group(2) != '0': sys.exit(1)
        if sys.argv[1:] == ['prove']: json.dump({"sha256": hashlib.sha256(text.encode()).hexdigest(), "harnesses": names, "constants_checked_at_compile_time": n,
                   "back_end": "Kani 0.68.0 (CBMC)", "against": "goblin 0.6.1, scroll 0.11 as locked in conform/Cargo.lock"}, open(V + '/conform/PROVED.json', 'w'), indent=1)
