//! WebAssembly binary parser; function bodies are flattened to a linear
//! instruction list with resolved branch targets.
use crate::expr::{B, C};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    Ref,
}
impl Ty {
    pub fn w(self) -> u8 {
        match self {
            Ty::I32 | Ty::F32 | Ty::Ref => 32,
            Ty::I64 | Ty::F64 => 64,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct FuncTy {
    pub params: Vec<Ty>,
    pub results: Vec<Ty>,
}
#[derive(Clone, Copy, Debug)]
pub enum Op {
    Unreachable,
    /// unconditional jump: keep the top `keep` values, truncate to height `h`
    Br { pc: u32, keep: u16, h: u16 },
    BrIf { pc: u32, keep: u16, h: u16 },
    /// jump if zero (for `if`)
    BrZ { pc: u32 },
    BrTable { t: u32 },
    Return,
    Call(u32),
    CallInd { ty: u32 },
    Drop,
    Select(u8),
    Get(u32),
    Set(u32),
    Tee(u32),
    GGet(u32),
    GSet(u32),
    /// bytes, result width, sign-extend
    Load { n: u8, w: u8, s: bool, off: u32 },
    Store { n: u8, off: u32 },
    MemSize,
    MemGrow,
    MemCopy,
    MemFill,
    MemInit(u32),
    DataDrop(u32),
    Const(u64),
    Bin(B, u8),
    /// comparison, width, swap operands, negate
    Cmp(C, u8, bool, bool),
    Eqz(u8),
    Clz(u8),
    Ctz(u8),
    Popcnt(u8),
    Wrap,
    ExtS(u8, u8),
    ExtU,
    /// float operation by opcode byte
    F1(u8),
    F2(u8),
    FTrunc(u8),
    Reinterp,
    RefNull,
    /// fused local.get + const/bin: not generated by the decoder directly
    GetConstBin(u16, B, u8, u32),
    GetGet(u16, u16),
    GetLoad { l: u16, n: u8, w: u8, s: bool, off: u32 },
    Nop,
}
pub struct Func {
    pub ty: u32,
    pub nparams: u32,
    pub nlocals: u32,
    pub nresults: u32,
    pub code: Vec<Op>,
    pub tables: Vec<Vec<(u32, u16, u16)>>,
    pub name: String,
    pub import: Option<String>,
}
pub struct Global {
    pub ty: Ty,
    pub init: u64,
}
pub struct Data {
    pub active: Option<u32>,
    pub bytes: Vec<u8>,
}
pub struct Module {
    pub types: Vec<FuncTy>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub table: Vec<Option<u32>>,
    pub data: Vec<Data>,
    pub exports: HashMap<String, (u8, u32)>,
    pub mem_min: u32,
}
struct R<'a> {
    b: &'a [u8],
    p: usize,
}
type Res<T> = Result<T, String>;
impl<'a> R<'a> {
    fn u8(&mut self) -> Res<u8> {
        let v = *self.b.get(self.p).ok_or("eof")?;
        self.p += 1;
        Ok(v)
    }
    fn leb(&mut self) -> Res<u32> {
        Ok(self.leb64()? as u32)
    }
    fn leb64(&mut self) -> Res<u64> {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8()?;
            r |= ((b & 0x7f) as u64) << s;
            s += 7;
            if b & 0x80 == 0 {
                return Ok(r);
            }
        }
    }
    fn sleb(&mut self) -> Res<i64> {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let b = self.u8()?;
            if s < 64 {
                r |= ((b & 0x7f) as i64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return Ok(r);
            }
        }
    }
    fn name(&mut self) -> Res<String> {
        let n = self.leb()? as usize;
        let s = self.b.get(self.p..self.p + n).ok_or("eof")?;
        self.p += n;
        Ok(String::from_utf8_lossy(s).into_owned())
    }
    fn ty(&mut self) -> Res<Ty> {
        ty(self.u8()?)
    }
}
fn ty(b: u8) -> Res<Ty> {
    Ok(match b {
        0x7f => Ty::I32,
        0x7e => Ty::I64,
        0x7d => Ty::F32,
        0x7c => Ty::F64,
        0x70 | 0x6f => Ty::Ref,
        _ => return Err(format!("type {b:#x}")),
    })
}
fn const_expr(r: &mut R, globals: &[Global]) -> Res<u64> {
    let mut v = 0;
    loop {
        match r.u8()? {
            0x41 => v = r.sleb()? as u32 as u64,
            0x42 => v = r.sleb()? as u64,
            0x43 => {
                v = u32::from_le_bytes(r.b[r.p..r.p + 4].try_into().unwrap()) as u64;
                r.p += 4
            }
            0x44 => {
                v = u64::from_le_bytes(r.b[r.p..r.p + 8].try_into().unwrap());
                r.p += 8
            }
            0x23 => v = globals[r.leb()? as usize].init,
            0xd0 => {
                r.leb()?;
                v = u32::MAX as u64
            }
            0xd2 => v = r.leb()? as u64,
            0x0b => return Ok(v),
            x => return Err(format!("const expr op {x:#x}")),
        }
    }
}
pub fn parse(b: &[u8]) -> Res<Module> {
    if b.get(0..8) != Some(&[0, b'a', b's', b'm', 1, 0, 0, 0]) {
        return Err("not a wasm module".into());
    }
    let mut m = Module {
        types: vec![],
        funcs: vec![],
        globals: vec![],
        table: vec![],
        data: vec![],
        exports: HashMap::new(),
        mem_min: 0,
    };
    let mut bodies: Vec<(usize, usize)> = vec![];
    let mut nimp = 0;
    let mut r = R { b, p: 8 };
    let mut names: HashMap<u32, String> = HashMap::new();
    while r.p < b.len() {
        let id = r.u8()?;
        let n = r.leb()? as usize;
        let end = r.p + n;
        match id {
            0 => {
                let nm = r.name()?;
                if nm == "name" {
                    while r.p < end {
                        let sid = r.u8()?;
                        let sn = r.leb()? as usize;
                        let send = r.p + sn;
                        if sid == 1 {
                            for _ in 0..r.leb()? {
                                let i = r.leb()?;
                                let s = r.name()?;
                                names.insert(i, s);
                            }
                        }
                        r.p = send;
                    }
                }
            }
            1 => {
                for _ in 0..r.leb()? {
                    if r.u8()? != 0x60 {
                        return Err("functype".into());
                    }
                    let mut p = vec![];
                    for _ in 0..r.leb()? {
                        p.push(r.ty()?);
                    }
                    let mut q = vec![];
                    for _ in 0..r.leb()? {
                        q.push(r.ty()?);
                    }
                    m.types.push(FuncTy {
                        params: p,
                        results: q,
                    });
                }
            }
            2 => {
                for _ in 0..r.leb()? {
                    let md = r.name()?;
                    let nm = r.name()?;
                    match r.u8()? {
                        0 => {
                            let t = r.leb()?;
                            let ft = &m.types[t as usize];
                            m.funcs.push(Func {
                                ty: t,
                                nparams: ft.params.len() as u32,
                                nlocals: 0,
                                nresults: ft.results.len() as u32,
                                code: vec![],
                                tables: vec![],
                                name: format!("{md}.{nm}"),
                                import: Some(format!("{md}.{nm}")),
                            });
                            nimp += 1;
                        }
                        k => return Err(format!("import kind {k} {md}.{nm}")),
                    }
                }
            }
            3 => {
                for _ in 0..r.leb()? {
                    let t = r.leb()?;
                    let ft = &m.types[t as usize];
                    m.funcs.push(Func {
                        ty: t,
                        nparams: ft.params.len() as u32,
                        nlocals: 0,
                        nresults: ft.results.len() as u32,
                        code: vec![],
                        tables: vec![],
                        name: String::new(),
                        import: None,
                    });
                }
            }
            4 => {
                let n = r.leb()?;
                if n > 1 {
                    return Err("several tables".into());
                }
                for _ in 0..n {
                    r.u8()?;
                    let fl = r.u8()?;
                    let min = r.leb()?;
                    if fl & 1 != 0 {
                        r.leb()?;
                    }
                    m.table = vec![None; min as usize];
                }
            }
            5 => {
                for _ in 0..r.leb()? {
                    let fl = r.u8()?;
                    m.mem_min = r.leb()?;
                    if fl & 1 != 0 {
                        r.leb()?;
                    }
                }
            }
            6 => {
                for _ in 0..r.leb()? {
                    let t = r.ty()?;
                    r.u8()?;
                    let v = const_expr(&mut r, &m.globals)?;
                    m.globals.push(Global { ty: t, init: v });
                }
            }
            7 => {
                for _ in 0..r.leb()? {
                    let nm = r.name()?;
                    let k = r.u8()?;
                    let i = r.leb()?;
                    m.exports.insert(nm, (k, i));
                }
            }
            9 => {
                for _ in 0..r.leb()? {
                    let fl = r.leb()?;
                    if fl != 0 {
                        return Err(format!("element segment kind {fl}"));
                    }
                    let off = const_expr(&mut r, &m.globals)? as usize;
                    for k in 0..r.leb()? as usize {
                        m.table[off + k] = Some(r.leb()?);
                    }
                }
            }
            10 => {
                for _ in 0..r.leb()? {
                    let n = r.leb()? as usize;
                    bodies.push((r.p, r.p + n));
                    r.p += n;
                }
            }
            11 => {
                for _ in 0..r.leb()? {
                    let fl = r.leb()?;
                    let active = match fl {
                        0 => Some(const_expr(&mut r, &m.globals)? as u32),
                        1 => None,
                        2 => {
                            r.leb()?;
                            Some(const_expr(&mut r, &m.globals)? as u32)
                        }
                        _ => return Err("data".into()),
                    };
                    let n = r.leb()? as usize;
                    m.data.push(Data {
                        active,
                        bytes: b[r.p..r.p + n].to_vec(),
                    });
                    r.p += n;
                }
            }
            _ => {}
        }
        r.p = end;
    }
    for (i, &(s, e)) in bodies.iter().enumerate() {
        let fi = nimp + i;
        let d = decode(&m, fi, &b[..e], s)
            .map_err(|x| format!("function {fi} {:?}: {x}", names.get(&(fi as u32))))?;
        let f = &mut m.funcs[fi];
        f.nlocals = d.0;
        f.code = d.1;
        f.tables = d.2;
    }
    for (i, f) in m.funcs.iter_mut().enumerate() {
        if f.import.is_none() {
            f.name = names
                .get(&(i as u32))
                .map(|s| format!("{:#}", rustc_demangle::demangle(s)))
                .unwrap_or(format!("func{i}"));
        }
    }
    Ok(m)
}
struct Ctl {
    is_loop: bool,
    height: usize,
    nparams: usize,
    nresults: usize,
    types: (Vec<u8>, Vec<u8>),
    target: u32,
    /// code positions to patch with the end position: (pc, None) or (table, Some(entry))
    patch: Vec<(u32, Option<(usize, usize)>)>,
    else_patch: Option<u32>,
    live: bool,
}
fn decode(
    m: &Module,
    fi: usize,
    b: &[u8],
    start: usize,
) -> Res<(u32, Vec<Op>, Vec<Vec<(u32, u16, u16)>>)> {
    let ft = &m.types[m.funcs[fi].ty as usize];
    let mut r = R { b, p: start };
    let mut lw: Vec<u8> = ft.params.iter().map(|t| t.w()).collect();
    for _ in 0..r.leb()? {
        let n = r.leb()?;
        let t = r.ty()?;
        for _ in 0..n {
            lw.push(t.w());
        }
    }
    let nlocals = lw.len() as u32;
    let mut code: Vec<Op> = vec![];
    let mut tables: Vec<Vec<(u32, u16, u16)>> = vec![];
    // widths of the operand-stack entries above the locals
    let mut h: Vec<u8> = vec![];
    let mut live = true;
    let mut ctl: Vec<Ctl> = vec![Ctl {
        is_loop: false,
        height: 0,
        nparams: 0,
        nresults: ft.results.len(),
        types: (vec![], ft.results.iter().map(|t| t.w()).collect()),
        target: 0,
        patch: vec![],
        else_patch: None,
        live: true,
    }];
    // depth of blocks opened in dead code
    let mut dead = 0usize;
    let bt = |r: &mut R| -> Res<(Vec<u8>, Vec<u8>)> {
        let v = r.sleb()?;
        Ok(if v == -64 {
            (vec![], vec![])
        } else if v < 0 {
            (vec![], vec![ty((v & 0x7f) as u8)?.w()])
        } else {
            let t = &m.types[v as usize];
            let f = |x: &Vec<Ty>| x.iter().map(|t| t.w()).collect();
            (f(&t.params), f(&t.results))
        })
    };
    // returns keep, h
    fn br_info(c: &Ctl) -> (u16, u16) {
        let k = if c.is_loop { c.nparams } else { c.nresults };
        (k as u16, c.height as u16)
    }
    while !ctl.is_empty() {
        let op = r.u8()?;
        macro_rules! emit { ($e:expr) => { if live { code.push($e); } } }
        macro_rules! pop { ($n:expr) => { if live { let n = h.len() - $n; h.truncate(n); } } }
        macro_rules! push { ($w:expr) => { if live { h.push($w); } } }
        macro_rules! top { ($w:expr) => { if live { *h.last_mut().unwrap() = $w; } } }
        match op {
            0x00 => {
                emit!(Op::Unreachable);
                live = false;
            }
            0x01 => {}
            0x02 | 0x03 | 0x04 => {
                let (p, q) = bt(&mut r)?;
                if !live {
                    dead += 1;
                    continue;
                }
                let mut ep = None;
                if op == 4 {
                    h.pop();
                    ep = Some(code.len() as u32);
                    code.push(Op::BrZ { pc: 0 });
                }
                ctl.push(Ctl {
                    is_loop: op == 3,
                    height: h.len() - p.len(),
                    nparams: p.len(),
                    nresults: q.len(),
                    types: (p, q),
                    target: code.len() as u32,
                    patch: vec![],
                    else_patch: ep,
                    live: true,
                });
            }
            0x05 => {
                if dead > 0 {
                    continue;
                }
                let c = ctl.last_mut().unwrap();
                if live {
                    c.patch.push((code.len() as u32, None));
                    let (k, hh) = (c.nresults as u16, c.height as u16);
                    code.push(Op::Br { pc: 0, keep: k, h: hh });
                }
                let ep = c.else_patch.take().unwrap();
                code[ep as usize] = Op::BrZ {
                    pc: code.len() as u32,
                };
                h.truncate(c.height);
                h.extend_from_slice(&c.types.0);
                live = c.live;
            }
            0x0b => {
                if dead > 0 {
                    dead -= 1;
                    continue;
                }
                let c = ctl.pop().unwrap();
                let here = code.len() as u32;
                if let Some(ep) = c.else_patch {
                    code[ep as usize] = Op::BrZ { pc: here };
                }
                for (pc, t) in &c.patch {
                    match t {
                        None => match &mut code[*pc as usize] {
                            Op::Br { pc, .. } | Op::BrIf { pc, .. } | Op::BrZ { pc } => *pc = here,
                            _ => unreachable!(),
                        },
                        Some((t, k)) => tables[*t][*k].0 = here,
                    }
                }
                h.truncate(c.height);
                h.extend_from_slice(&c.types.1);
                live = c.live;
                if ctl.is_empty() {
                    code.push(Op::Return);
                }
            }
            0x0c | 0x0d => {
                let l = r.leb()? as usize;
                if !live {
                    continue;
                }
                if op == 0x0d {
                    h.pop();
                }
                let n = ctl.len() - 1 - l;
                let (k, hh) = br_info(&ctl[n]);
                let here = code.len() as u32;
                let t = if ctl[n].is_loop {
                    ctl[n].target
                } else {
                    ctl[n].patch.push((here, None));
                    0
                };
                if op == 0x0c {
                    code.push(Op::Br { pc: t, keep: k, h: hh });
                    live = false;
                } else {
                    code.push(Op::BrIf { pc: t, keep: k, h: hh });
                }
            }
            0x0e => {
                let n = r.leb()? as usize;
                let mut ls = vec![];
                for _ in 0..=n {
                    ls.push(r.leb()? as usize);
                }
                if !live {
                    continue;
                }
                h.pop();
                let ti = tables.len();
                let mut tb = vec![];
                for (k, l) in ls.into_iter().enumerate() {
                    let n = ctl.len() - 1 - l;
                    let (kp, hh) = br_info(&ctl[n]);
                    let t = if ctl[n].is_loop {
                        ctl[n].target
                    } else {
                        ctl[n].patch.push((code.len() as u32, Some((ti, k))));
                        0
                    };
                    tb.push((t, kp, hh));
                }
                tables.push(tb);
                code.push(Op::BrTable { t: ti as u32 });
                live = false;
            }
            0x0f => {
                emit!(Op::Return);
                live = false;
            }
            0x10 => {
                let f = r.leb()?;
                let t = &m.types[m.funcs[f as usize].ty as usize];
                emit!(Op::Call(f));
                pop!(t.params.len());
                for x in &t.results {
                    push!(x.w());
                }
            }
            0x11 => {
                let ti = r.leb()?;
                r.leb()?;
                let t = &m.types[ti as usize];
                emit!(Op::CallInd { ty: ti });
                pop!(1 + t.params.len());
                for x in &t.results {
                    push!(x.w());
                }
            }
            0x1a => {
                emit!(Op::Drop);
                pop!(1);
            }
            0x1b | 0x1c => {
                if op == 0x1c {
                    for _ in 0..r.leb()? {
                        r.ty()?;
                    }
                }
                pop!(2);
                emit!(Op::Select(*h.last().unwrap()));
            }
            0x20 => {
                let i = r.leb()?;
                emit!(Op::Get(i));
                push!(lw[i as usize]);
            }
            0x21 => {
                let i = r.leb()?;
                emit!(Op::Set(i));
                pop!(1);
            }
            0x22 => {
                let i = r.leb()?;
                emit!(Op::Tee(i));
            }
            0x23 => {
                let i = r.leb()?;
                emit!(Op::GGet(i));
                push!(m.globals[i as usize].ty.w());
            }
            0x24 => {
                let i = r.leb()?;
                emit!(Op::GSet(i));
                pop!(1);
            }
            0x28..=0x35 => {
                r.leb()?;
                let off = r.leb()?;
                let (n, w, s) = match op {
                    0x28 | 0x2a => (4, 32, false),
                    0x29 | 0x2b => (8, 64, false),
                    0x2c => (1, 32, true),
                    0x2d => (1, 32, false),
                    0x2e => (2, 32, true),
                    0x2f => (2, 32, false),
                    0x30 => (1, 64, true),
                    0x31 => (1, 64, false),
                    0x32 => (2, 64, true),
                    0x33 => (2, 64, false),
                    0x34 => (4, 64, true),
                    _ => (4, 64, false),
                };
                emit!(Op::Load { n, w, s, off });
                top!(w);
            }
            0x36..=0x3e => {
                r.leb()?;
                let off = r.leb()?;
                let n = match op {
                    0x36 | 0x38 | 0x3e => 4,
                    0x37 | 0x39 => 8,
                    0x3a | 0x3c => 1,
                    _ => 2,
                };
                emit!(Op::Store { n, off });
                pop!(2);
            }
            0x3f => {
                r.u8()?;
                emit!(Op::MemSize);
                push!(32);
            }
            0x40 => {
                r.u8()?;
                emit!(Op::MemGrow);
            }
            0x41 => {
                let v = r.sleb()? as u32 as u64;
                emit!(Op::Const(v));
                push!(32);
            }
            0x42 => {
                let v = r.sleb()? as u64;
                emit!(Op::Const(v));
                push!(64);
            }
            0x43 => {
                let v = u32::from_le_bytes(b[r.p..r.p + 4].try_into().unwrap()) as u64;
                r.p += 4;
                emit!(Op::Const(v));
                push!(32);
            }
            0x44 => {
                let v = u64::from_le_bytes(b[r.p..r.p + 8].try_into().unwrap());
                r.p += 8;
                emit!(Op::Const(v));
                push!(64);
            }
            0x45 => emit!(Op::Eqz(32)),
            0x50 => {
                emit!(Op::Eqz(64));
                top!(32);
            }
            0x46..=0x4f | 0x51..=0x5a => {
                let (w, k) = if op < 0x50 { (32, op - 0x46) } else { (64, op - 0x51) };
                let o = match k {
                    0 => Op::Cmp(C::Eq, w, false, false),
                    1 => Op::Cmp(C::Eq, w, false, true),
                    2 => Op::Cmp(C::Slt, w, false, false),
                    3 => Op::Cmp(C::Ult, w, false, false),
                    4 => Op::Cmp(C::Slt, w, true, false),
                    5 => Op::Cmp(C::Ult, w, true, false),
                    6 => Op::Cmp(C::Sle, w, false, false),
                    7 => Op::Cmp(C::Ule, w, false, false),
                    8 => Op::Cmp(C::Sle, w, true, false),
                    _ => Op::Cmp(C::Ule, w, true, false),
                };
                emit!(o);
                pop!(1);
                top!(32);
            }
            0x5b..=0x66 => {
                emit!(Op::F2(op));
                pop!(1);
                top!(32);
            }
            0x67 => emit!(Op::Clz(32)),
            0x68 => emit!(Op::Ctz(32)),
            0x69 => emit!(Op::Popcnt(32)),
            0x79 => emit!(Op::Clz(64)),
            0x7a => emit!(Op::Ctz(64)),
            0x7b => emit!(Op::Popcnt(64)),
            0x6a..=0x78 | 0x7c..=0x8a => {
                let (w, k) = if op < 0x79 { (32, op - 0x6a) } else { (64, op - 0x7c) };
                let o = [
                    B::Add,
                    B::Sub,
                    B::Mul,
                    B::SDiv,
                    B::UDiv,
                    B::SRem,
                    B::URem,
                    B::And,
                    B::Or,
                    B::Xor,
                    B::Shl,
                    B::AShr,
                    B::LShr,
                    B::Rotl,
                    B::Rotr,
                ][k as usize];
                emit!(Op::Bin(o, w));
                pop!(1);
            }
            0x8b..=0x91 | 0x99..=0x9f => emit!(Op::F1(op)),
            0x92..=0x98 | 0xa0..=0xa6 => {
                emit!(Op::F2(op));
                pop!(1);
            }
            0xa7 => {
                emit!(Op::Wrap);
                top!(32);
            }
            0xac => {
                emit!(Op::ExtS(32, 64));
                top!(64);
            }
            0xad => {
                emit!(Op::ExtU);
                top!(64);
            }
            0xa8..=0xab => {
                emit!(Op::FTrunc(op));
                top!(32);
            }
            0xae..=0xb1 => {
                emit!(Op::FTrunc(op));
                top!(64);
            }
            0xb2..=0xbb => {
                emit!(Op::F1(op));
                top!(if op < 0xb7 { 32 } else { 64 });
            }
            0xbc..=0xbf => emit!(Op::Reinterp),
            0xc0 => emit!(Op::ExtS(8, 32)),
            0xc1 => emit!(Op::ExtS(16, 32)),
            0xc2 => emit!(Op::ExtS(8, 64)),
            0xc3 => emit!(Op::ExtS(16, 64)),
            0xc4 => emit!(Op::ExtS(132, 64)),
            0xd0 => {
                r.leb()?;
                emit!(Op::RefNull);
                push!(32);
            }
            0xfc => match r.leb()? {
                k @ 0..=7 => {
                    emit!(Op::FTrunc(k as u8));
                    top!(if k < 4 { 32 } else { 64 });
                }
                8 => {
                    let d = r.leb()?;
                    r.u8()?;
                    emit!(Op::MemInit(d));
                    pop!(3);
                }
                9 => {
                    let d = r.leb()?;
                    emit!(Op::DataDrop(d));
                }
                10 => {
                    r.u8()?;
                    r.u8()?;
                    emit!(Op::MemCopy);
                    pop!(3);
                }
                11 => {
                    r.u8()?;
                    emit!(Op::MemFill);
                    pop!(3);
                }
                k => return Err(format!("unsupported 0xfc {k}")),
            },
            x => return Err(format!("unsupported opcode {x:#x}")),
        }
    }
    fuse(&mut code, &tables);
    Ok((nlocals, code, tables))
}
/// Peephole fusion of common pairs. The second slot stays in place (as the
/// original instruction), so jump targets remain valid; the fused instruction
/// skips it.
fn fuse(code: &mut [Op], _tables: &[Vec<(u32, u16, u16)>]) {
    for i in 0..code.len().saturating_sub(1) {
        let (a, b) = (code[i], code[i + 1]);
        match (a, b) {
            (Op::Get(x), Op::Get(y)) if x < 65536 && y < 65536 => {
                code[i] = Op::GetGet(x as u16, y as u16)
            }
            (Op::Get(l), Op::Load { n, w, s, off }) if l < 65536 => {
                code[i] = Op::GetLoad {
                    l: l as u16,
                    n,
                    w,
                    s,
                    off,
                }
            }
            _ => {}
        }
        if i + 2 < code.len() {
            if let (Op::Get(l), Op::Const(c), Op::Bin(o, w)) = (a, b, code[i + 2]) {
                if l < 65536
                    && matches!(o, B::Add | B::Sub | B::And | B::Or | B::Xor)
                    && w == 32
                {
                    code[i] = Op::GetConstBin(l as u16, o, w, c as u32);
                }
            }
        }
    }
}
