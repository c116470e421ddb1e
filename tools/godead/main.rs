//! godead IN OUT: ends the scope of every local and parameter of every function of a goto binary.
//!
//! CBMC's symbolic execution forgets the scalar locals of a function when it returns, but not the
//! components of its structs, so that every later join of two paths merges all of them again.
//! Inserting explicit DEAD instructions before END_FUNCTION avoids that; nothing else changes: no
//! instruction can refer to those variables any more at that point.
use std::collections::HashMap;

const DECL: u64 = 14; // goto_program_instruction_typet, checked against the statement below
const DEAD: u64 = 15;
const END_FUNCTION: u64 = 9;

struct Irep {
    id: u64,
    sub: Vec<u64>,
    named: Vec<(u64, u64)>,
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
    strings: HashMap<u64, Vec<u8>>,
    ireps: HashMap<u64, Irep>,
}
impl<'a> P<'a> {
    fn word(&mut self) -> u64 {
        let (mut r, mut s) = (0u64, 0);
        loop {
            let c = self.b[self.i];
            self.i += 1;
            r |= ((c & 0x7f) as u64) << s;
            s += 7;
            if c & 0x80 == 0 {
                return r;
            }
        }
    }
    fn gbstring(&mut self) -> Vec<u8> {
        let mut v = vec![];
        loop {
            let c = self.b[self.i];
            self.i += 1;
            match c {
                0 => return v,
                b'\\' => {
                    v.push(self.b[self.i]);
                    self.i += 1;
                }
                c => v.push(c),
            }
        }
    }
    fn strref(&mut self) -> u64 {
        let id = self.word();
        if !self.strings.contains_key(&id) {
            let s = self.gbstring();
            self.strings.insert(id, s);
        }
        id
    }
    fn irep(&mut self) -> u64 {
        let id = self.word();
        if self.ireps.contains_key(&id) {
            return id;
        }
        let mut r = Irep { id: self.strref(), sub: vec![], named: vec![] };
        loop {
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'S' => {
                    let s = self.irep();
                    r.sub.push(s);
                }
                b'N' | b'C' => {
                    let n = self.strref();
                    let s = self.irep();
                    r.named.push((n, s));
                }
                0 => break,
                c => panic!("unexpected irep tag {}", c),
            }
        }
        self.ireps.insert(id, r);
        id
    }
    fn s(&self, id: u64) -> &[u8] {
        &self.strings[&id]
    }
    fn named(&self, i: u64, name: &[u8]) -> Option<u64> {
        self.ireps[&i].named.iter().find(|(n, _)| self.s(*n) == name).map(|x| x.1)
    }
}
fn put(o: &mut Vec<u8>, mut w: u64) {
    loop {
        let c = (w & 0x7f) as u8;
        w >>= 7;
        if w == 0 {
            o.push(c);
            return;
        }
        o.push(c | 0x80);
    }
}

struct W {
    out: Vec<u8>,
    next_irep: u64,
    next_string: u64,
    own: HashMap<Vec<u8>, u64>,
}
impl W {
    fn string(&mut self, s: &[u8]) {
        if let Some(&id) = self.own.get(s) {
            put(&mut self.out, id);
            return;
        }
        let id = self.next_string;
        self.next_string += 1;
        self.own.insert(s.to_vec(), id);
        put(&mut self.out, id);
        for &c in s {
            if c == 0 || c == b'\\' {
                self.out.push(b'\\');
            }
            self.out.push(c);
        }
        self.out.push(0);
    }
    fn open(&mut self, id: &[u8]) {
        let n = self.next_irep;
        self.next_irep += 1;
        put(&mut self.out, n);
        self.string(id);
    }
    fn leaf(&mut self, id: &[u8]) {
        self.open(id);
        self.out.push(0);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let b = std::fs::read(&a[1]).unwrap();
    assert!(&b[..4] == b"\x7fGBF", "not a goto binary");
    let mut p = P { b: &b, i: 4, strings: HashMap::new(), ireps: HashMap::new() };
    assert!(p.word() == 6, "goto binary version");
    // function -> parameters (identifier, type irep)
    let mut params: HashMap<Vec<u8>, Vec<(Vec<u8>, u64)>> = HashMap::new();
    for _ in 0..p.word() {
        let ty = p.irep();
        p.irep();
        p.irep();
        let name = p.strref();
        for _ in 0..4 {
            p.strref();
        }
        p.word();
        p.word();
        if p.s(p.ireps[&ty].id) == b"code" {
            if let Some(ps) = p.named(ty, b"parameters") {
                let mut v = vec![];
                for &x in &p.ireps[&ps].sub {
                    if let (Some(t), Some(i)) = (p.named(x, b"type"), p.named(x, b"#identifier")) {
                        v.push((p.s(p.ireps[&i].id).to_vec(), t));
                    }
                }
                params.insert(p.s(name).to_vec(), v);
            }
        }
    }
    struct Ins {
        at: usize,      // offset of the END_FUNCTION instruction
        body: usize,    // offset of its target number
        after: usize,   // offset behind its target number
        target: u64,
        count_at: usize,
        count_end: usize,
        count: u64,
        dead: Vec<(Vec<u8>, u64)>,
    }
    let mut inserts: Vec<Ins> = vec![];
    for _ in 0..p.word() {
        let f = p.gbstring();
        let count_at = p.i;
        let count = p.word();
        let count_end = p.i;
        let mut dead: Vec<(Vec<u8>, u64)> = params.get(&f).cloned().unwrap_or_default();
        let mut ended: std::collections::HashSet<Vec<u8>> = Default::default();
        for _ in 0..count {
            let at = p.i;
            let code = p.irep();
            p.irep();
            let ty = p.word();
            p.irep();
            let body = p.i;
            let target = p.word();
            let after = p.i;
            for _ in 0..p.word() {
                p.word();
            }
            for _ in 0..p.word() {
                p.strref();
            }
            if ty == DEAD {
                let sym = p.ireps[&code].sub[0];
                let id = p.named(sym, b"identifier").expect("identifier");
                ended.insert(p.s(p.ireps[&id].id).to_vec());
            }
            if ty == DECL {
                let st = p.named(code, b"statement").expect("statement");
                assert!(p.s(p.ireps[&st].id) == b"decl", "not a declaration");
                let sym = p.ireps[&code].sub[0];
                let id = p.named(sym, b"identifier").expect("identifier");
                let id = p.s(p.ireps[&id].id).to_vec();
                if !dead.iter().any(|d| d.0 == id) {
                    dead.push((id, p.named(sym, b"type").expect("type")));
                }
            }
            if ty == END_FUNCTION && !dead.is_empty() {
                let mut dead = std::mem::take(&mut dead);
                dead.retain(|d| !ended.contains(&d.0));
                if dead.is_empty() {
                    continue;
                }
                inserts.push(Ins { at, body, after, target, count_at, count_end, count, dead });
            }
        }
    }
    assert!(p.i == b.len(), "trailing bytes");
    let mut w = W {
        out: Vec::with_capacity(b.len() * 2),
        next_irep: p.ireps.keys().max().unwrap() + 1,
        next_string: p.strings.keys().max().unwrap() + 1,
        own: HashMap::new(),
    };
    let mut pos = 0;
    for x in &inserts {
        w.out.extend_from_slice(&b[pos..x.count_at]);
        put(&mut w.out, x.count + x.dead.len() as u64);
        w.out.extend_from_slice(&b[x.count_end..x.at]);
        for (k, (id, ty)) in x.dead.iter().enumerate() {
            w.open(b"code");
            w.out.push(b'S');
            w.open(b"symbol");
            w.out.push(b'N');
            w.string(b"identifier");
            w.leaf(id);
            w.out.push(b'N');
            w.string(b"type");
            put(&mut w.out, *ty);
            w.out.push(0);
            w.out.push(b'N');
            w.string(b"statement");
            w.leaf(b"dead");
            w.out.push(b'N');
            w.string(b"type");
            w.leaf(b"empty");
            w.out.push(0);
            w.leaf(b""); // source location
            put(&mut w.out, DEAD);
            w.open(b"constant"); // guard: true
            w.out.push(b'N');
            w.string(b"type");
            w.leaf(b"bool");
            w.out.push(b'N');
            w.string(b"value");
            w.leaf(b"true");
            w.out.push(0);
            put(&mut w.out, if k == 0 { x.target } else { u32::MAX as u64 });
            put(&mut w.out, 0);
            put(&mut w.out, 0);
        }
        w.out.extend_from_slice(&b[x.at..x.body]);
        put(&mut w.out, u32::MAX as u64); // nil target: jumps to the end go to the first DEAD
        pos = x.after;
    }
    w.out.extend_from_slice(&b[pos..]);
    std::fs::write(&a[2], w.out).unwrap();
}
