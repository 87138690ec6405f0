//! The published interface description (Anchor IDL, the JSON under
//! solana/ts/idl) and a client driven by nothing else: instructions are
//! assembled and accounts decoded by the names, orders, flags and types the
//! description gives.

use crate::client::{disc, Rd};
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut i = 0;
        let v = J::val(b, &mut i)?;
        J::ws(b, &mut i);
        if i != b.len() {
            return Err(format!("trailing text at {i}"));
        }
        Ok(v)
    }
    fn ws(b: &[u8], i: &mut usize) {
        while *i < b.len() && b[*i].is_ascii_whitespace() {
            *i += 1
        }
    }
    fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
        J::ws(b, i);
        let bad = |i: usize| Err(format!("unexpected text at {i}"));
        match b.get(*i) {
            Some(b'{') => {
                *i += 1;
                let mut o = vec![];
                loop {
                    J::ws(b, i);
                    if b.get(*i) == Some(&b'}') {
                        *i += 1;
                        return Ok(J::Obj(o));
                    }
                    let J::Str(k) = J::val(b, i)? else { return bad(*i) };
                    J::ws(b, i);
                    if b.get(*i) != Some(&b':') {
                        return bad(*i);
                    }
                    *i += 1;
                    o.push((k, J::val(b, i)?));
                    J::ws(b, i);
                    if b.get(*i) == Some(&b',') {
                        *i += 1
                    }
                }
            }
            Some(b'[') => {
                *i += 1;
                let mut o = vec![];
                loop {
                    J::ws(b, i);
                    if b.get(*i) == Some(&b']') {
                        *i += 1;
                        return Ok(J::Arr(o));
                    }
                    o.push(J::val(b, i)?);
                    J::ws(b, i);
                    if b.get(*i) == Some(&b',') {
                        *i += 1
                    }
                }
            }
            Some(b'"') => {
                *i += 1;
                let mut o = vec![];
                while let Some(&c) = b.get(*i) {
                    *i += 1;
                    match c {
                        b'"' => return String::from_utf8(o).map(J::Str).map_err(|e| e.to_string()),
                        b'\\' => {
                            let c = *b.get(*i).ok_or("end")?;
                            *i += 1;
                            o.push(match c {
                                b'n' => b'\n',
                                b't' => b'\t',
                                b'"' | b'\\' | b'/' => c,
                                _ => return bad(*i),
                            });
                        }
                        _ => o.push(c),
                    }
                }
                bad(*i)
            }
            Some(c) if c.is_ascii_digit() || *c == b'-' => {
                let s = *i;
                *i += 1;
                while *i < b.len() && b[*i].is_ascii_digit() {
                    *i += 1
                }
                std::str::from_utf8(&b[s..*i]).unwrap().parse().map(J::Num).map_err(|e| e.to_string())
            }
            _ => {
                for (t, v) in [("true", J::Bool(true)), ("false", J::Bool(false)), ("null", J::Null)] {
                    if b[*i..].starts_with(t.as_bytes()) {
                        *i += t.len();
                        return Ok(v);
                    }
                }
                bad(*i)
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> Option<&str> {
        match self.get(k) {
            Some(J::Str(s)) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) {
            Some(J::Arr(a)) => a,
            _ => &[],
        }
    }
    fn flag(&self, k: &str) -> bool {
        self.get(k) == Some(&J::Bool(true))
    }
    /// Object keys in a canonical order, documentation comments left out; names
    /// start with a small letter (the TypeScript copies write account names so).
    pub fn canon(&self) -> J {
        match self {
            J::Obj(o) => {
                let low = |s: &str| s.char_indices().map(|(i, c)| if i == 0 { c.to_ascii_lowercase() } else { c }).collect();
                let mut v: Vec<_> = o
                    .iter()
                    .filter(|x| x.0 != "docs")
                    .map(|(k, j)| match (k.as_str(), j) {
                        ("name", J::Str(n)) => (k.clone(), J::Str(low(n))),
                        _ => (k.clone(), j.canon()),
                    })
                    .collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                J::Obj(v)
            }
            J::Arr(a) => J::Arr(a.iter().map(|x| x.canon()).collect()),
            x => x.clone(),
        }
    }
}

/// A value of an IDL type.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    N(i128),
    B(bool),
    /// public keys and byte arrays
    Y(Vec<u8>),
    S(Vec<(String, V)>),
    E(String, Vec<V>),
    O(Option<Box<V>>),
    T(String),
}

impl V {
    pub fn n(x: impl TryInto<i128>) -> V {
        V::N(x.try_into().ok().unwrap())
    }
    pub fn key(k: &Pubkey) -> V {
        V::Y(k.to_bytes().to_vec())
    }
    pub fn s(f: &[(&str, V)]) -> V {
        V::S(f.iter().map(|x| (x.0.to_string(), x.1.clone())).collect())
    }
    pub fn unit(n: &str) -> V {
        V::E(n.into(), vec![])
    }
    pub fn get(&self, path: &str) -> Option<&V> {
        path.split('.').try_fold(self, |v, p| match v {
            V::S(f) => f.iter().find(|x| x.0 == p).map(|x| &x.1),
            _ => None,
        })
    }
}

#[derive(Clone, Debug)]
pub struct Slot {
    pub path: String,
    pub leaf: String,
    pub writable: bool,
    pub signer: bool,
    pub optional: bool,
}

#[derive(Clone)]
pub struct Idl {
    pub prog: Pubkey,
    pub j: J,
}

fn snake(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_uppercase() {
            o.push('_');
        }
        o.push(c.to_ascii_lowercase());
    }
    o
}

impl Idl {
    pub fn load(prog: Pubkey, path: &str) -> Result<Idl, String> {
        let s = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        Ok(Idl { prog, j: J::parse(&s).map_err(|e| format!("{path}: {e}"))? })
    }
    /// The constant of the TypeScript copy.
    pub fn load_ts(path: &str) -> Result<J, String> {
        let s = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let i = s.find("export const IDL").ok_or(format!("{path}: no IDL constant"))?;
        let s = &s[i..];
        let i = s.find('=').ok_or("no =")?;
        J::parse(s[i + 1..].trim().trim_end_matches(';')).map_err(|e| format!("{path}: {e}"))
    }
    pub fn version(&self) -> &str {
        self.j.str("version").unwrap_or("")
    }
    pub fn instruction(&self, name: &str) -> Option<&J> {
        self.j.arr("instructions").iter().find(|i| i.str("name") == Some(name))
    }
    /// Instruction whose discriminator starts the data.
    pub fn by_data(&self, d: &[u8]) -> Option<&J> {
        let t = d.get(..8)?;
        self.j.arr("instructions").iter().find(|i| disc("global", &snake(i.str("name").unwrap_or(""))) == *t)
    }
    pub fn slots(i: &J) -> Vec<Slot> {
        fn walk(a: &[J], p: &str, out: &mut Vec<Slot>) {
            for x in a {
                let n = x.str("name").unwrap_or("");
                if x.get("accounts").is_some() {
                    walk(x.arr("accounts"), &format!("{p}{n}."), out);
                } else {
                    out.push(Slot {
                        path: format!("{p}{n}"),
                        leaf: n.into(),
                        writable: x.flag("isMut"),
                        signer: x.flag("isSigner"),
                        optional: x.flag("isOptional"),
                    });
                }
            }
        }
        let mut o = vec![];
        walk(i.arr("accounts"), "", &mut o);
        o
    }
    fn defined(&self, n: &str) -> Option<&J> {
        self.j.arr("types").iter().chain(self.j.arr("accounts")).find(|t| t.str("name") == Some(n)).and_then(|t| t.get("type"))
    }

    fn enc_fields(&self, fields: &[J], v: &V, out: &mut Vec<u8>) -> Result<(), String> {
        let V::S(given) = v else { return Err("not a record".into()) };
        if given.len() != fields.len() {
            return Err(format!("{} fields, {} given", fields.len(), given.len()));
        }
        for f in fields {
            let n = f.str("name").unwrap_or("");
            let x = v.get(n).ok_or(format!("field {n} not expected"))?;
            self.enc(f.get("type").ok_or("type")?, x, out)?;
        }
        Ok(())
    }
    fn enc(&self, ty: &J, v: &V, out: &mut Vec<u8>) -> Result<(), String> {
        let wrong = || Err(format!("{v:?} is no {ty:?}"));
        match ty {
            J::Str(t) => {
                let int = |bytes: usize, out: &mut Vec<u8>| match v {
                    V::N(n) => {
                        out.extend_from_slice(&n.to_le_bytes()[..bytes]);
                        Ok(())
                    }
                    _ => wrong(),
                };
                match (t.as_str(), v) {
                    ("u8", _) => int(1, out),
                    ("u16", _) => int(2, out),
                    ("u32", _) => int(4, out),
                    ("u64" | "i64", _) => int(8, out),
                    ("u128", _) => int(16, out),
                    ("bool", V::B(b)) => {
                        out.push(*b as u8);
                        Ok(())
                    }
                    ("publicKey", V::Y(b)) if b.len() == 32 => {
                        out.extend_from_slice(b);
                        Ok(())
                    }
                    _ => wrong(),
                }
            }
            _ => {
                if let Some(n) = ty.str("defined") {
                    let t = self.defined(n).ok_or(format!("type {n} not described"))?;
                    if t.str("kind") == Some("struct") {
                        return self.enc_fields(t.arr("fields"), v, out);
                    }
                    let V::E(name, _) = v else { return wrong() };
                    let i = t.arr("variants").iter().position(|x| x.str("name") == Some(name)).ok_or(format!("no variant {name}"))?;
                    out.push(i as u8);
                    return Ok(());
                }
                if let [J::Str(t), J::Num(n)] = ty.arr("array") {
                    if let (V::Y(b), "u8") = (v, t.as_str()) {
                        if b.len() as i128 == *n {
                            out.extend_from_slice(b);
                            return Ok(());
                        }
                    }
                }
                wrong()
            }
        }
    }
    fn dec(&self, ty: &J, r: &mut Rd) -> Option<V> {
        Some(match ty {
            J::Str(t) => match t.as_str() {
                "u8" => V::n(r.u8()?),
                "u16" => V::n(r.u16()?),
                "u32" => V::n(r.u32()?),
                "u64" => V::n(r.u64()?),
                "i64" => V::n(r.i64()?),
                "u128" => V::N(r.u128()? as i128),
                "bool" => V::B(match r.u8()? {
                    0 => false,
                    1 => true,
                    _ => return None,
                }),
                "publicKey" => V::Y(r.b32()?.to_vec()),
                "string" => {
                    let n = r.u32()? as usize;
                    V::T(String::from_utf8(r.take(n)?.to_vec()).ok()?)
                }
                _ => return None,
            },
            _ => {
                if let Some(n) = ty.str("defined") {
                    return self.dec_def(self.defined(n)?, r);
                }
                if let Some(t) = ty.get("option") {
                    return Some(V::O(match r.u8()? {
                        0 => None,
                        1 => Some(Box::new(self.dec(t, r)?)),
                        _ => return None,
                    }));
                }
                match ty.arr("array") {
                    [J::Str(t), J::Num(n)] if t == "u8" => V::Y(r.take(*n as usize)?.to_vec()),
                    _ => return None,
                }
            }
        })
    }
    fn dec_def(&self, t: &J, r: &mut Rd) -> Option<V> {
        if t.str("kind") == Some("struct") {
            let mut o = vec![];
            for f in t.arr("fields") {
                o.push((f.str("name")?.to_string(), self.dec(f.get("type")?, r)?));
            }
            return Some(V::S(o));
        }
        let v = t.arr("variants").get(r.u8()? as usize)?;
        let mut o = vec![];
        for f in v.arr("fields") {
            o.push(match f.get("type") {
                Some(t) => self.dec(t, r)?,
                None => self.dec(f, r)?,
            });
        }
        Some(V::E(v.str("name")?.into(), o))
    }

    /// Assembles an instruction; `args` by name, accounts by (path, leaf) name.
    pub fn call(&self, name: &str, args: &[(&str, V)], key: &dyn Fn(&Slot) -> Option<Pubkey>) -> Result<Instruction, String> {
        let i = self.instruction(name).ok_or(format!("no instruction {name} described"))?;
        let mut data = disc("global", &snake(name)).to_vec();
        self.enc_fields(i.arr("args"), &V::s(args), &mut data).map_err(|e| format!("{name}: {e}"))?;
        let mut accounts = vec![];
        for s in Idl::slots(i) {
            let key = match key(&s) {
                Some(k) => k,
                None if s.optional => self.prog,
                None => return Err(format!("{name}: unknown account {}", s.path)),
            };
            accounts.push(AccountMeta { pubkey: key, is_signer: s.signer, is_writable: s.writable });
        }
        Ok(Instruction { program_id: self.prog, accounts, data })
    }
    /// Decodes a program account: type name and contents.
    pub fn account(&self, d: &[u8]) -> Option<(String, V)> {
        let t = d.get(..8)?;
        let a = self.j.arr("accounts").iter().find(|a| disc("account", a.str("name").unwrap_or("")) == *t)?;
        Some((a.str("name")?.into(), self.dec_def(a.get("type")?, &mut Rd(&d[8..]))?))
    }
    /// A returned value, decoded to the last byte.
    pub fn returned(&self, name: &str, d: &[u8]) -> Option<V> {
        let mut r = Rd(d);
        let v = self.dec(self.instruction(name)?.get("returns")?, &mut r)?;
        r.0.is_empty().then_some(v)
    }
    /// Arguments in the data, if they are exactly of the described types.
    pub fn args(&self, i: &J, d: &[u8]) -> Option<V> {
        let mut r = Rd(d.get(8..)?);
        let mut o = vec![];
        for f in i.arr("args") {
            o.push((f.str("name")?.to_string(), self.dec(f.get("type")?, &mut r)?));
        }
        r.0.is_empty().then_some(V::S(o))
    }
    pub fn error(&self, code: u32) -> Option<&str> {
        self.j.arr("errors").iter().find(|e| e.get("code") == Some(&J::Num(code as i128))).and_then(|e| e.str("name"))
    }
}
