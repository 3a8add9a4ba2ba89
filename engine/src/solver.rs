//! Satisfiability queries over the expression arena, decided by z3, with
//! constraint slicing and a per-thread query cache.
use crate::expr::{Arena, B, C, E};
use crate::z3::*;
use std::collections::HashMap;
use std::time::Instant;

pub struct Solver {
    ctx: Ptr,
    solver: Ptr,
    cache: Vec<Ast>,
    vars: Vec<Option<u128>>,
    qcache: HashMap<Vec<u32>, Option<Vec<(u32, u64)>>>,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub nanos: u128,
    pub max_nanos: u128,
    pub error: Option<String>,
}
extern "C" fn on_err(_c: Ptr, e: u32) {
    eprintln!("z3 error {e}");
    std::process::exit(3);
}
impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let s = |x: &str| std::ffi::CString::new(x).unwrap();
            let (k, v) = (s("model"), s("true"));
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let (k, v) = (s("timeout"), s("120000"));
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            Solver {
                ctx,
                solver,
                cache: vec![],
                vars: vec![],
                qcache: HashMap::new(),
                sat: 0,
                unsat: 0,
                cached: 0,
                nanos: 0,
                max_nanos: 0,
                error: None,
            }
        }
    }
    pub fn vars(&mut self, a: &Arena, e: u32) -> u128 {
        if self.vars.len() < a.nodes.len() {
            self.vars.resize(a.nodes.len(), None);
        }
        if let Some(v) = self.vars[e as usize] {
            return v;
        }
        let v = match a.e(e) {
            E::Const(_) => 0,
            E::Var(i) => {
                assert!(i < 128, "more than 128 symbolic inputs on a path");
                1u128 << i
            }
            E::Bin(_, x, y) | E::Cmp(_, x, y) | E::AndB(x, y) | E::OrB(x, y) | E::Concat(x, y) => {
                self.vars(a, x) | self.vars(a, y)
            }
            E::Not(x) | E::Extract(_, x) | E::ZExt(x) | E::SExt(x) => self.vars(a, x),
            E::Ite(x, y, z) => self.vars(a, x) | self.vars(a, y) | self.vars(a, z),
        };
        self.vars[e as usize] = Some(v);
        v
    }
    fn ast(&mut self, a: &Arena, e: u32) -> Ast {
        if self.cache.len() < a.nodes.len() {
            self.cache.resize(a.nodes.len(), std::ptr::null_mut());
        }
        let c = self.cache[e as usize];
        if !c.is_null() {
            return c;
        }
        let w = a.w(e) as u32;
        let x = self.ctx;
        let r = unsafe {
            match a.e(e) {
                E::Const(v) => {
                    if w == 0 {
                        if v != 0 {
                            Z3_mk_true(x)
                        } else {
                            Z3_mk_false(x)
                        }
                    } else {
                        Z3_mk_unsigned_int64(x, v, Z3_mk_bv_sort(x, w))
                    }
                }
                E::Var(i) => {
                    let n = std::ffi::CString::new(format!("v{i}_{w}")).unwrap();
                    Z3_mk_const(x, Z3_mk_string_symbol(x, n.as_ptr()), Z3_mk_bv_sort(x, w))
                }
                E::Bin(op, p, q) => {
                    let (p, q) = (self.ast(a, p), self.ast(a, q));
                    match op {
                        B::Add => Z3_mk_bvadd(x, p, q),
                        B::Sub => Z3_mk_bvsub(x, p, q),
                        B::Mul => Z3_mk_bvmul(x, p, q),
                        B::UDiv => Z3_mk_bvudiv(x, p, q),
                        B::SDiv => Z3_mk_bvsdiv(x, p, q),
                        B::URem => Z3_mk_bvurem(x, p, q),
                        B::SRem => Z3_mk_bvsrem(x, p, q),
                        B::And => Z3_mk_bvand(x, p, q),
                        B::Or => Z3_mk_bvor(x, p, q),
                        B::Xor => Z3_mk_bvxor(x, p, q),
                        B::Shl => Z3_mk_bvshl(x, p, q),
                        B::LShr => Z3_mk_bvlshr(x, p, q),
                        B::AShr => Z3_mk_bvashr(x, p, q),
                        B::Rotl => Z3_mk_ext_rotate_left(x, p, q),
                        B::Rotr => Z3_mk_ext_rotate_right(x, p, q),
                    }
                }
                E::Cmp(op, p, q) => {
                    let (p, q) = (self.ast(a, p), self.ast(a, q));
                    match op {
                        C::Eq => Z3_mk_eq(x, p, q),
                        C::Ult => Z3_mk_bvult(x, p, q),
                        C::Ule => Z3_mk_bvule(x, p, q),
                        C::Slt => Z3_mk_bvslt(x, p, q),
                        C::Sle => Z3_mk_bvsle(x, p, q),
                    }
                }
                E::Not(p) => {
                    let p = self.ast(a, p);
                    Z3_mk_not(x, p)
                }
                E::AndB(p, q) => {
                    let v = [self.ast(a, p), self.ast(a, q)];
                    Z3_mk_and(x, 2, v.as_ptr())
                }
                E::OrB(p, q) => {
                    let v = [self.ast(a, p), self.ast(a, q)];
                    Z3_mk_or(x, 2, v.as_ptr())
                }
                E::Ite(c, p, q) => {
                    let (c, p, q) = (self.ast(a, c), self.ast(a, p), self.ast(a, q));
                    Z3_mk_ite(x, c, p, q)
                }
                E::Extract(lo, p) => {
                    let p = self.ast(a, p);
                    Z3_mk_extract(x, lo + w - 1, lo, p)
                }
                E::Concat(p, q) => {
                    let (p, q) = (self.ast(a, p), self.ast(a, q));
                    Z3_mk_concat(x, p, q)
                }
                E::ZExt(p) => {
                    let n = w - a.w(p) as u32;
                    let p = self.ast(a, p);
                    Z3_mk_zero_ext(x, n, p)
                }
                E::SExt(p) => {
                    let n = w - a.w(p) as u32;
                    let p = self.ast(a, p);
                    Z3_mk_sign_ext(x, n, p)
                }
            }
        };
        unsafe { Z3_inc_ref(x, r) };
        self.cache[e as usize] = r;
        r
    }
    /// Is `pc` and `goal` satisfiable? Returns a full model, keeping `model`
    /// for the variables that are unrelated to `goal`.
    pub fn query(
        &mut self,
        a: &mut Arena,
        pc: &[u32],
        goal: u32,
        model: &[u64],
        widths: &[u8],
    ) -> Option<Vec<u64>> {
        if goal == a.f {
            return None;
        }
        let mut vs = self.vars(a, goal);
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if !used[i] {
                    let cv = self.vars(a, c);
                    if cv & vs != 0 {
                        used[i] = true;
                        if cv & !vs != 0 {
                            vs |= cv;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut key: Vec<u32> = pc
            .iter()
            .enumerate()
            .filter(|(i, _)| used[*i])
            .map(|(_, &c)| c)
            .collect();
        key.sort_unstable();
        key.dedup();
        key.push(goal);
        if let Some(r) = self.qcache.get(&key) {
            self.cached += 1;
            return r.as_ref().map(|v| {
                let mut m = model.to_vec();
                for &(i, x) in v {
                    if m.len() <= i as usize {
                        m.resize(i as usize + 1, 0);
                    }
                    m[i as usize] = x;
                }
                m
            });
        }
        let t0 = Instant::now();
        let asts: Vec<Ast> = key.iter().map(|&k| self.ast(a, k)).collect();
        let res = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for x in asts {
                Z3_solver_assert(self.ctx, self.solver, x);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut v = vec![];
                    for i in 0..128u32 {
                        if vs >> i & 1 != 0 {
                            let ve = a.var(i, widths[i as usize]);
                            let t = self.ast(a, ve);
                            let mut o: Ast = std::ptr::null_mut();
                            let mut n = 0u64;
                            if !Z3_model_eval(self.ctx, m, t, true, &mut o)
                                || !Z3_get_numeral_uint64(self.ctx, o, &mut n)
                            {
                                self.error = Some("model evaluation failed".into());
                            }
                            v.push((i, n));
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Some(v)
                }
                -1 => {
                    self.unsat += 1;
                    None
                }
                _ => {
                    self.error = Some("solver answered unknown".into());
                    None
                }
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            out
        };
        let dt = t0.elapsed().as_nanos();
        self.nanos += dt;
        self.max_nanos = self.max_nanos.max(dt);
        self.qcache.insert(key, res.clone());
        res.map(|v| {
            let mut m = model.to_vec();
            for (i, x) in v {
                if m.len() <= i as usize {
                    m.resize(i as usize + 1, 0);
                }
                m[i as usize] = x;
            }
            m
        })
    }
}
