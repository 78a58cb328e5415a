//! Generated by tools/mkdata.py: functions, ways to bind their arguments, function pointers.
use crate::term::*;
use cmh::json::J;
use crossmist::{func, lambda, BindMut, BindRef, BindValue, FnMutObject, FnObject, FnOnceObject, StaticFn};

#[func]
fn f0() -> Vec<i64> {
    let r = vec![0];
    r
}

#[func]
fn f2(a0: i64) -> Vec<i64> {
    let r = vec![2, a0];
    r
}

#[func]
fn f5(b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![5, b0, b1];
    r
}

#[func]
fn f6(a0: i64, b0: i64) -> Vec<i64> {
    let r = vec![6, a0, b0];
    r
}

#[func]
fn f10(a0: i64, a1: &i64) -> Vec<i64> {
    let r = vec![10, a0, *a1];
    r
}

#[func]
fn f11(a0: i64, a1: &mut i64) -> Vec<i64> {
    let r = vec![11, a0, *a1];
    crate::step(a1, &[]);
    r
}

#[func]
fn f12(a0: &i64, a1: i64) -> Vec<i64> {
    let r = vec![12, *a0, a1];
    r
}

#[func]
fn f15(a0: &mut i64, a1: i64) -> Vec<i64> {
    let r = vec![15, *a0, a1];
    crate::step(a0, &[]);
    r
}

#[func]
fn f17(a0: &mut i64, a1: &mut i64) -> Vec<i64> {
    let r = vec![17, *a0, *a1];
    crate::step(a0, &[]);
    crate::step(a1, &[]);
    r
}

#[func]
fn f18(b0: i64, b1: i64, b2: i64) -> Vec<i64> {
    let r = vec![18, b0, b1, b2];
    r
}

#[func]
fn f20(a0: &i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![20, *a0, b0, b1];
    r
}

#[func]
fn f21(a0: &mut i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![21, *a0, b0, b1];
    crate::step(a0, &[b0, b1]);
    r
}

#[func]
fn f22(a0: i64, a1: i64, b0: i64) -> Vec<i64> {
    let r = vec![22, a0, a1, b0];
    r
}

#[func]
fn f24(a0: i64, a1: &mut i64, b0: i64) -> Vec<i64> {
    let r = vec![24, a0, *a1, b0];
    crate::step(a1, &[b0]);
    r
}

#[func]
fn f25(a0: &i64, a1: i64, b0: i64) -> Vec<i64> {
    let r = vec![25, *a0, a1, b0];
    r
}

#[func]
fn f26(a0: &i64, a1: &i64, b0: i64) -> Vec<i64> {
    let r = vec![26, *a0, *a1, b0];
    r
}

#[func]
fn f27(a0: &i64, a1: &mut i64, b0: i64) -> Vec<i64> {
    let r = vec![27, *a0, *a1, b0];
    crate::step(a1, &[b0]);
    r
}

#[func]
fn f29(a0: &mut i64, a1: &i64, b0: i64) -> Vec<i64> {
    let r = vec![29, *a0, *a1, b0];
    crate::step(a0, &[b0]);
    r
}

#[func]
fn f30(a0: &mut i64, a1: &mut i64, b0: i64) -> Vec<i64> {
    let r = vec![30, *a0, *a1, b0];
    crate::step(a0, &[b0]);
    crate::step(a1, &[b0]);
    r
}

#[func]
fn f32(a0: i64, b0: i64, b1: i64, b2: i64) -> Vec<i64> {
    let r = vec![32, a0, b0, b1, b2];
    r
}

#[func]
fn f35(a0: i64, a1: i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![35, a0, a1, b0, b1];
    r
}

#[func]
fn f36(a0: i64, a1: &i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![36, a0, *a1, b0, b1];
    r
}

#[func]
fn f37(a0: i64, a1: &mut i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![37, a0, *a1, b0, b1];
    crate::step(a1, &[b0, b1]);
    r
}

#[func]
fn f38(a0: &i64, a1: i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![38, *a0, a1, b0, b1];
    r
}

#[func]
fn f41(a0: &mut i64, a1: i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![41, *a0, a1, b0, b1];
    crate::step(a0, &[b0, b1]);
    r
}

#[func]
fn f42(a0: &mut i64, a1: &i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![42, *a0, *a1, b0, b1];
    crate::step(a0, &[b0, b1]);
    r
}

#[func]
fn f43(a0: &mut i64, a1: &mut i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![43, *a0, *a1, b0, b1];
    crate::step(a0, &[b0, b1]);
    crate::step(a1, &[b0, b1]);
    r
}

#[func]
fn f48(a0: i64, a1: &Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64) -> Vec<i64> {
    let r = vec![48, a0, **a1, b0, b1, b2, b3, b4];
    r
}

#[func]
fn f52(a0: &Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64) -> Vec<i64> {
    let r = vec![52, **a0, b0, b1, b2, b3, b4, b5, b6, b7, b8];
    r
}

#[func]
fn f54(a0: i64, a1: i64, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64) -> Vec<i64> {
    let r = vec![54, a0, a1, b0, b1, b2, b3, b4, b5, b6, b7, b8];
    r
}

#[func]
fn f56(a0: Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64) -> Vec<i64> {
    let r = vec![56, *a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11];
    r
}

#[func]
fn f57(a0: i64, a1: &i64, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64) -> Vec<i64> {
    let r = vec![57, a0, *a1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10];
    r
}

#[func]
fn f58(a0: i64, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64) -> Vec<i64> {
    let r = vec![58, a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12];
    r
}

#[func]
fn f59(a0: &Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64) -> Vec<i64> {
    let r = vec![59, **a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13];
    r
}

#[func]
fn f60(a0: Box<i64>, a1: i64, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64) -> Vec<i64> {
    let r = vec![60, *a0, a1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12];
    r
}

#[func]
fn f61(a0: &Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64) -> Vec<i64> {
    let r = vec![61, **a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14];
    r
}

#[func]
fn f62(a0: i64, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64) -> Vec<i64> {
    let r = vec![62, a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15];
    r
}

#[func]
fn f63(a0: &i64, a1: &mut Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64) -> Vec<i64> {
    let r = vec![63, *a0, **a1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14];
    crate::step(&mut **a1, &[b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14]);
    r
}

#[func]
fn f64(a0: &mut Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64) -> Vec<i64> {
    let r = vec![64, **a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16];
    crate::step(&mut **a0, &[b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16]);
    r
}

#[func]
fn f65(a0: &Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64) -> Vec<i64> {
    let r = vec![65, **a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17];
    r
}

#[func]
fn f66(a0: i64, a1: &Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64) -> Vec<i64> {
    let r = vec![66, a0, **a1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16];
    r
}

#[func]
fn f67(a0: &Box<i64>, b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64) -> Vec<i64> {
    let r = vec![67, **a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18];
    r
}

#[func]
fn f68(a0: Box<i64>, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![68, *a0, b0, b1];
    r
}

#[func]
fn f72(a0: &Box<i64>, a1: &mut i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![72, **a0, *a1, b0, b1];
    crate::step(a1, &[b0, b1]);
    r
}

#[func]
fn f73(a0: &mut Box<i64>, a1: &Box<i64>, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![73, **a0, **a1, b0, b1];
    crate::step(&mut **a0, &[b0, b1]);
    r
}

#[func]
fn f74(a0: Box<i64>, a1: &mut Box<i64>, a2: &Box<i64>, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![74, *a0, **a1, **a2, b0, b1];
    crate::step(&mut **a1, &[b0, b1]);
    r
}

#[func]
fn f75(a0: &mut Box<i64>, a1: &mut Box<i64>, a2: &mut Box<i64>, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![75, **a0, **a1, **a2, b0, b1];
    crate::step(&mut **a0, &[b0, b1]);
    crate::step(&mut **a1, &[b0, b1]);
    crate::step(&mut **a2, &[b0, b1]);
    r
}

#[func]
fn f76(a0: &Box<i64>, a1: &Box<i64>, a2: &i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![76, **a0, **a1, *a2, b0, b1];
    r
}

#[func]
fn f78(a0: &mut i64, a1: Box<i64>, a2: &i64, b0: i64, b1: i64) -> Vec<i64> {
    let r = vec![78, *a0, *a1, *a2, b0, b1];
    crate::step(a0, &[b0, b1]);
    r
}

impl Term for Box<dyn FnOnceObject<(), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["", "r", "vv", "rv", "mv"];
        let ids = [0, 3, 9, 12, 15];
        crate::clo_kind(0, 0, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f0),
            1 => {
                let a0 = h(0);
                lambda! { move(&a0: &i64) || -> Vec<i64> {
                    let r = vec![3, *a0];
                    r
                } }
            }
            2 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(a0: i64, a1: i64) || -> Vec<i64> {
                    let r = vec![9, a0, a1];
                    r
                } }
            }
            3 => Box::new(f12.bind_ref(h(0)).bind_value(h(1))),
            4 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&mut a0: &mut i64, a1: i64) || -> Vec<i64> {
                    let r = vec![15, *a0, a1];
                    crate::step(a0, &[]);
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box(())
    }
}

impl Term for Box<dyn FnOnceObject<(i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["v", "vm", "rm", "mm"];
        let ids = [6, 24, 27, 30];
        crate::clo_kind(0, 1, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f6.bind_value(h(0))),
            1 => Box::new(f24.bind_value(h(0)).bind_mut(h(1))),
            2 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&a0: &i64, &mut a1: &mut i64) |b0: i64| -> Vec<i64> {
                    let r = vec![27, *a0, *a1, b0];
                    crate::step(a1, &[b0]);
                    r
                } }
            }
            3 => Box::new(f30.bind_mut(h(0)).bind_mut(h(1))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["m", "vr", "rr", "mr", "b", "R", "bv", "Rm", "bMR", "MMM", "vbM", "mbr"];
        let ids = [21, 36, 39, 42, 68, 69, 71, 72, 74, 75, 77, 78];
        crate::clo_kind(0, 2, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = h(0);
                lambda! { move(&mut a0: &mut i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![21, *a0, b0, b1];
                    crate::step(a0, &[b0, b1]);
                    r
                } }
            }
            1 => Box::new(f36.bind_value(h(0)).bind_ref(h(1))),
            2 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&a0: &i64, &a1: &i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![39, *a0, *a1, b0, b1];
                    r
                } }
            }
            3 => Box::new(f42.bind_mut(h(0)).bind_ref(h(1))),
            4 => Box::new(f68.bind_value(Box::new(h(0)))),
            5 => {
                let a0 = Box::new(h(0));
                lambda! { move(&a0: &Box<i64>) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![69, **a0, b0, b1];
                    r
                } }
            }
            6 => {
                let a0 = Box::new(h(0)); let a1 = h(1);
                lambda! { move(a0: Box<i64>, a1: i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![71, *a0, a1, b0, b1];
                    r
                } }
            }
            7 => Box::new(f72.bind_ref(Box::new(h(0))).bind_mut(h(1))),
            8 => Box::new(f74.bind_value(Box::new(h(0))).bind_mut(Box::new(h(1))).bind_ref(Box::new(h(2)))),
            9 => {
                let a0 = Box::new(h(0)); let a1 = Box::new(h(1)); let a2 = Box::new(h(2));
                lambda! { move(&mut a0: &mut Box<i64>, &mut a1: &mut Box<i64>, &mut a2: &mut Box<i64>) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![75, **a0, **a1, **a2, b0, b1];
                    crate::step(&mut **a0, &[b0, b1]);
                    crate::step(&mut **a1, &[b0, b1]);
                    crate::step(&mut **a2, &[b0, b1]);
                    r
                } }
            }
            10 => {
                let a0 = h(0); let a1 = Box::new(h(1)); let a2 = Box::new(h(2));
                lambda! { move(a0: i64, a1: Box<i64>, &mut a2: &mut Box<i64>) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![77, a0, *a1, **a2, b0, b1];
                    crate::step(&mut **a2, &[b0, b1]);
                    r
                } }
            }
            11 => Box::new(f78.bind_mut(h(0)).bind_value(Box::new(h(1))).bind_ref(h(2))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["", "r", "rb"];
        let ids = [18, 33, 45];
        crate::clo_kind(0, 3, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f18),
            1 => {
                let a0 = h(0);
                lambda! { move(&a0: &i64) |b0: i64, b1: i64, b2: i64| -> Vec<i64> {
                    let r = vec![33, *a0, b0, b1, b2];
                    r
                } }
            }
            2 => {
                let a0 = h(0); let a1 = Box::new(h(1));
                lambda! { move(&a0: &i64, a1: Box<i64>) |b0: i64, b1: i64, b2: i64| -> Vec<i64> {
                    let r = vec![45, *a0, *a1, b0, b1, b2];
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["vR"];
        let ids = [48];
        crate::clo_kind(0, 5, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f48.bind_value(h(0)).bind_ref(Box::new(h(1)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["Rv"];
        let ids = [51];
        crate::clo_kind(0, 7, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = Box::new(h(0)); let a1 = h(1);
                lambda! { move(&a0: &Box<i64>, a1: i64) |b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64| -> Vec<i64> {
                    let r = vec![51, **a0, a1, b0, b1, b2, b3, b4, b5, b6];
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["vv"];
        let ids = [54];
        crate::clo_kind(0, 9, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f54.bind_value(h(0)).bind_value(h(1))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["b", "vr"];
        let ids = [55, 57];
        crate::clo_kind(0, 11, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = Box::new(h(0));
                lambda! { move(a0: Box<i64>) |b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64| -> Vec<i64> {
                    let r = vec![55, *a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10];
                    r
                } }
            }
            1 => Box::new(f57.bind_value(h(0)).bind_ref(h(1))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["b"];
        let ids = [56];
        crate::clo_kind(0, 12, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f56.bind_value(Box::new(h(0)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["bv"];
        let ids = [60];
        crate::clo_kind(0, 13, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f60.bind_value(Box::new(h(0))).bind_value(h(1))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["rM"];
        let ids = [63];
        crate::clo_kind(0, 15, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f63.bind_ref(h(0)).bind_mut(Box::new(h(1)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],))
    }
}

impl Term for Box<dyn FnOnceObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["vR"];
        let ids = [66];
        crate::clo_kind(0, 17, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f66.bind_value(h(0)).bind_ref(Box::new(h(1)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],))
    }
}

impl Term for Box<dyn FnMutObject<(), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["", "m", "vr", "vm", "rm", "mv", "mr", "mm"];
        let ids = [0, 4, 10, 11, 14, 15, 16, 17];
        crate::clo_kind(1, 0, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                
                lambda! { || -> Vec<i64> {
                    let r = vec![0];
                    r
                } }
            }
            1 => {
                let a0 = h(0);
                lambda! { move(&mut a0: &mut i64) || -> Vec<i64> {
                    let r = vec![4, *a0];
                    crate::step(a0, &[]);
                    r
                } }
            }
            2 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(a0: i64, &a1: &i64) || -> Vec<i64> {
                    let r = vec![10, a0, *a1];
                    r
                } }
            }
            3 => Box::new(f11.bind_value(h(0)).bind_mut(h(1))),
            4 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&a0: &i64, &mut a1: &mut i64) || -> Vec<i64> {
                    let r = vec![14, *a0, *a1];
                    crate::step(a1, &[]);
                    r
                } }
            }
            5 => Box::new(f15.bind_mut(h(0)).bind_value(h(1))),
            6 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&mut a0: &mut i64, &a1: &i64) || -> Vec<i64> {
                    let r = vec![16, *a0, *a1];
                    crate::step(a0, &[]);
                    r
                } }
            }
            7 => Box::new(f17.bind_mut(h(0)).bind_mut(h(1))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut(()),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box(())
    }
}

impl Term for Box<dyn FnMutObject<(i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["m", "vm", "rv", "rm", "mv", "mr", "mm"];
        let ids = [8, 24, 25, 27, 28, 29, 30];
        crate::clo_kind(1, 1, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = h(0);
                lambda! { move(&mut a0: &mut i64) |b0: i64| -> Vec<i64> {
                    let r = vec![8, *a0, b0];
                    crate::step(a0, &[b0]);
                    r
                } }
            }
            1 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(a0: i64, &mut a1: &mut i64) |b0: i64| -> Vec<i64> {
                    let r = vec![24, a0, *a1, b0];
                    crate::step(a1, &[b0]);
                    r
                } }
            }
            2 => Box::new(f25.bind_ref(h(0)).bind_value(h(1))),
            3 => Box::new(f27.bind_ref(h(0)).bind_mut(h(1))),
            4 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&mut a0: &mut i64, a1: i64) |b0: i64| -> Vec<i64> {
                    let r = vec![28, *a0, a1, b0];
                    crate::step(a0, &[b0]);
                    r
                } }
            }
            5 => Box::new(f29.bind_mut(h(0)).bind_ref(h(1))),
            6 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&mut a0: &mut i64, &mut a1: &mut i64) |b0: i64| -> Vec<i64> {
                    let r = vec![30, *a0, *a1, b0];
                    crate::step(a0, &[b0]);
                    crate::step(a1, &[b0]);
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],))
    }
}

impl Term for Box<dyn FnMutObject<(i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["", "r", "m", "vv", "vm", "rm", "mv", "mr", "mm", "M", "Rm", "MR", "MMM"];
        let ids = [5, 20, 21, 35, 37, 40, 41, 42, 43, 70, 72, 73, 75];
        crate::clo_kind(1, 2, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f5),
            1 => {
                let a0 = h(0);
                lambda! { move(&a0: &i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![20, *a0, b0, b1];
                    r
                } }
            }
            2 => Box::new(f21.bind_mut(h(0))),
            3 => Box::new(f35.bind_value(h(0)).bind_value(h(1))),
            4 => Box::new(f37.bind_value(h(0)).bind_mut(h(1))),
            5 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&a0: &i64, &mut a1: &mut i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![40, *a0, *a1, b0, b1];
                    crate::step(a1, &[b0, b1]);
                    r
                } }
            }
            6 => Box::new(f41.bind_mut(h(0)).bind_value(h(1))),
            7 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&mut a0: &mut i64, &a1: &i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![42, *a0, *a1, b0, b1];
                    crate::step(a0, &[b0, b1]);
                    r
                } }
            }
            8 => Box::new(f43.bind_mut(h(0)).bind_mut(h(1))),
            9 => {
                let a0 = Box::new(h(0));
                lambda! { move(&mut a0: &mut Box<i64>) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![70, **a0, b0, b1];
                    crate::step(&mut **a0, &[b0, b1]);
                    r
                } }
            }
            10 => {
                let a0 = Box::new(h(0)); let a1 = h(1);
                lambda! { move(&a0: &Box<i64>, &mut a1: &mut i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![72, **a0, *a1, b0, b1];
                    crate::step(a1, &[b0, b1]);
                    r
                } }
            }
            11 => Box::new(f73.bind_mut(Box::new(h(0))).bind_ref(Box::new(h(1)))),
            12 => Box::new(f75.bind_mut(Box::new(h(0))).bind_mut(Box::new(h(1))).bind_mut(Box::new(h(2)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],x[1],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],))
    }
}

impl Term for Box<dyn FnMutObject<(i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["m"];
        let ids = [34];
        crate::clo_kind(1, 3, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = h(0);
                lambda! { move(&mut a0: &mut i64) |b0: i64, b1: i64, b2: i64| -> Vec<i64> {
                    let r = vec![34, *a0, b0, b1, b2];
                    crate::step(a0, &[b0, b1, b2]);
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],))
    }
}

impl Term for Box<dyn FnMutObject<(i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["m"];
        let ids = [44];
        crate::clo_kind(1, 4, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = h(0);
                lambda! { move(&mut a0: &mut i64) |b0: i64, b1: i64, b2: i64, b3: i64| -> Vec<i64> {
                    let r = vec![44, *a0, b0, b1, b2, b3];
                    crate::step(a0, &[b0, b1, b2, b3]);
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],))
    }
}

impl Term for Box<dyn FnMutObject<(i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["M"];
        let ids = [46];
        crate::clo_kind(1, 5, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = Box::new(h(0));
                lambda! { move(&mut a0: &mut Box<i64>) |b0: i64, b1: i64, b2: i64, b3: i64, b4: i64| -> Vec<i64> {
                    let r = vec![46, **a0, b0, b1, b2, b3, b4];
                    crate::step(&mut **a0, &[b0, b1, b2, b3, b4]);
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],))
    }
}

impl Term for Box<dyn FnMutObject<(i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["m"];
        let ids = [50];
        crate::clo_kind(1, 8, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = h(0);
                lambda! { move(&mut a0: &mut i64) |b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64| -> Vec<i64> {
                    let r = vec![50, *a0, b0, b1, b2, b3, b4, b5, b6, b7];
                    crate::step(a0, &[b0, b1, b2, b3, b4, b5, b6, b7]);
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],))
    }
}

impl Term for Box<dyn FnMutObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["rM"];
        let ids = [63];
        crate::clo_kind(1, 15, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f63.bind_ref(h(0)).bind_mut(Box::new(h(1)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],))
    }
}

impl Term for Box<dyn FnMutObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["M"];
        let ids = [64];
        crate::clo_kind(1, 17, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f64.bind_mut(Box::new(h(0)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],))
    }
}

impl Term for Box<dyn FnMutObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["R"];
        let ids = [65];
        crate::clo_kind(1, 18, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f65.bind_ref(Box::new(h(0)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],))
    }
}

impl Term for Box<dyn FnObject<(), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["", "v", "r", "vv", "vr", "rv", "rr"];
        let ids = [0, 2, 3, 9, 10, 12, 13];
        crate::clo_kind(2, 0, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f0),
            1 => Box::new(f2.bind_value(h(0))),
            2 => {
                let a0 = h(0);
                lambda! { move(&a0: &i64) || -> Vec<i64> {
                    let r = vec![3, *a0];
                    r
                } }
            }
            3 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(a0: i64, a1: i64) || -> Vec<i64> {
                    let r = vec![9, a0, a1];
                    r
                } }
            }
            4 => Box::new(f10.bind_value(h(0)).bind_ref(h(1))),
            5 => Box::new(f12.bind_ref(h(0)).bind_value(h(1))),
            6 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&a0: &i64, &a1: &i64) || -> Vec<i64> {
                    let r = vec![13, *a0, *a1];
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object(()),
            "mut" => self.as_mut().call_object_mut(()),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box(())
    }
}

impl Term for Box<dyn FnObject<(i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["", "v", "r", "vv", "vr", "rv", "rr"];
        let ids = [1, 6, 7, 22, 23, 25, 26];
        crate::clo_kind(2, 1, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                
                lambda! { |b0: i64| -> Vec<i64> {
                    let r = vec![1, b0];
                    r
                } }
            }
            1 => Box::new(f6.bind_value(h(0))),
            2 => {
                let a0 = h(0);
                lambda! { move(&a0: &i64) |b0: i64| -> Vec<i64> {
                    let r = vec![7, *a0, b0];
                    r
                } }
            }
            3 => Box::new(f22.bind_value(h(0)).bind_value(h(1))),
            4 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(a0: i64, &a1: &i64) |b0: i64| -> Vec<i64> {
                    let r = vec![23, a0, *a1, b0];
                    r
                } }
            }
            5 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&a0: &i64, a1: i64) |b0: i64| -> Vec<i64> {
                    let r = vec![25, *a0, a1, b0];
                    r
                } }
            }
            6 => Box::new(f26.bind_ref(h(0)).bind_ref(h(1))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],)),
            "mut" => self.as_mut().call_object_mut((x[0],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["", "v", "r", "vv", "vr", "rv", "rr", "R", "RRr"];
        let ids = [5, 19, 20, 35, 36, 38, 39, 69, 76];
        crate::clo_kind(2, 2, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                
                lambda! { |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![5, b0, b1];
                    r
                } }
            }
            1 => {
                let a0 = h(0);
                lambda! { move(a0: i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![19, a0, b0, b1];
                    r
                } }
            }
            2 => Box::new(f20.bind_ref(h(0))),
            3 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(a0: i64, a1: i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![35, a0, a1, b0, b1];
                    r
                } }
            }
            4 => Box::new(f36.bind_value(h(0)).bind_ref(h(1))),
            5 => Box::new(f38.bind_ref(h(0)).bind_value(h(1))),
            6 => {
                let a0 = h(0); let a1 = h(1);
                lambda! { move(&a0: &i64, &a1: &i64) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![39, *a0, *a1, b0, b1];
                    r
                } }
            }
            7 => {
                let a0 = Box::new(h(0));
                lambda! { move(&a0: &Box<i64>) |b0: i64, b1: i64| -> Vec<i64> {
                    let r = vec![69, **a0, b0, b1];
                    r
                } }
            }
            8 => Box::new(f76.bind_ref(Box::new(h(0))).bind_ref(Box::new(h(1))).bind_ref(h(2))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["", "v", "r"];
        let ids = [18, 32, 33];
        crate::clo_kind(2, 3, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f18),
            1 => Box::new(f32.bind_value(h(0))),
            2 => {
                let a0 = h(0);
                lambda! { move(&a0: &i64) |b0: i64, b1: i64, b2: i64| -> Vec<i64> {
                    let r = vec![33, *a0, b0, b1, b2];
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = [""];
        let ids = [31];
        crate::clo_kind(2, 4, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                
                lambda! { |b0: i64, b1: i64, b2: i64, b3: i64| -> Vec<i64> {
                    let r = vec![31, b0, b1, b2, b3];
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["vR"];
        let ids = [48];
        crate::clo_kind(2, 5, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f48.bind_value(h(0)).bind_ref(Box::new(h(1)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["v"];
        let ids = [47];
        crate::clo_kind(2, 6, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = h(0);
                lambda! { move(a0: i64) |b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64| -> Vec<i64> {
                    let r = vec![47, a0, b0, b1, b2, b3, b4, b5];
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["v", "Rv"];
        let ids = [49, 51];
        crate::clo_kind(2, 7, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = h(0);
                lambda! { move(a0: i64) |b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64| -> Vec<i64> {
                    let r = vec![49, a0, b0, b1, b2, b3, b4, b5, b6];
                    r
                } }
            }
            1 => {
                let a0 = Box::new(h(0)); let a1 = h(1);
                lambda! { move(&a0: &Box<i64>, a1: i64) |b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64| -> Vec<i64> {
                    let r = vec![51, **a0, a1, b0, b1, b2, b3, b4, b5, b6];
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["R", "vv"];
        let ids = [52, 54];
        crate::clo_kind(2, 9, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f52.bind_ref(Box::new(h(0)))),
            1 => Box::new(f54.bind_value(h(0)).bind_value(h(1))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["r"];
        let ids = [53];
        crate::clo_kind(2, 10, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => {
                let a0 = h(0);
                lambda! { move(&a0: &i64) |b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64| -> Vec<i64> {
                    let r = vec![53, *a0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9];
                    r
                } }
            }
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["vr"];
        let ids = [57];
        crate::clo_kind(2, 11, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f57.bind_value(h(0)).bind_ref(h(1))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["v"];
        let ids = [58];
        crate::clo_kind(2, 13, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f58.bind_value(h(0))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["R"];
        let ids = [59];
        crate::clo_kind(2, 14, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f59.bind_ref(Box::new(h(0)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["R"];
        let ids = [61];
        crate::clo_kind(2, 15, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f61.bind_ref(Box::new(h(0)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["v"];
        let ids = [62];
        crate::clo_kind(2, 16, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f62.bind_value(h(0))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["vR"];
        let ids = [66];
        crate::clo_kind(2, 17, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f66.bind_value(h(0)).bind_ref(Box::new(h(1)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["R"];
        let ids = [65];
        crate::clo_kind(2, 18, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f65.bind_ref(Box::new(h(0)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],))
    }
}

impl Term for Box<dyn FnObject<(i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,i64,), Output = Vec<i64>>> {
    fn ty(_: &mut Reg) -> J {
        let s = ["R"];
        let ids = [67];
        crate::clo_kind(2, 19, &s, &ids)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        let h = |i: usize| c(v, i).n("n");
        let _ = &h;
        match v.n("n") {
            0 => Box::new(f67.bind_ref(Box::new(h(0)))),
            _ => panic!("HARNESS: no such shape"),
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        t(0, vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.as_ref().call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],)),
            "mut" => self.as_mut().call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],)),
            _ => panic!("HARNESS: mode"),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_box((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],))
    }
}

fn p0_0() -> Vec<i64> {
    vec![0]
}
fn p0_1() -> Vec<i64> {
    vec![1]
}
fn p0_2() -> Vec<i64> {
    vec![2]
}
impl Term for StaticFn<fn() -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 0)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn() -> Vec<i64>>::new(p0_0),
                1 => StaticFn::<fn() -> Vec<i64>>::new(p0_1),
                2 => StaticFn::<fn() -> Vec<i64>>::new(p0_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p0_0 as fn() -> Vec<i64> as usize, p0_1 as fn() -> Vec<i64> as usize, p0_2 as fn() -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object(()),
            "mut" => self.call_object_mut(()),
            _ => (self.get_fn())(),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once(())
    }
}

unsafe fn u0_0() -> Vec<i64> {
    vec![0]
}
unsafe fn u0_1() -> Vec<i64> {
    vec![1]
}
unsafe fn u0_2() -> Vec<i64> {
    vec![2]
}
impl Term for StaticFn<unsafe fn() -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(3, 0)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<unsafe fn() -> Vec<i64>>::new(u0_0),
                1 => StaticFn::<unsafe fn() -> Vec<i64>>::new(u0_1),
                2 => StaticFn::<unsafe fn() -> Vec<i64>>::new(u0_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [u0_0 as unsafe fn() -> Vec<i64> as usize, u0_1 as unsafe fn() -> Vec<i64> as usize, u0_2 as unsafe fn() -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        let _ = mode;
        unsafe { (self.get_fn())() }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        unsafe { (self.get_fn())() }
    }
}

fn p1_0(b0: i64) -> Vec<i64> {
    vec![0, b0]
}
fn p1_1(b0: i64) -> Vec<i64> {
    vec![1, b0]
}
fn p1_2(b0: i64) -> Vec<i64> {
    vec![2, b0]
}
impl Term for StaticFn<fn(i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 1)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64) -> Vec<i64>>::new(p1_0),
                1 => StaticFn::<fn(i64) -> Vec<i64>>::new(p1_1),
                2 => StaticFn::<fn(i64) -> Vec<i64>>::new(p1_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p1_0 as fn(i64) -> Vec<i64> as usize, p1_1 as fn(i64) -> Vec<i64> as usize, p1_2 as fn(i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],)),
            "mut" => self.call_object_mut((x[0],)),
            _ => (self.get_fn())(x[0]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],))
    }
}

unsafe fn u1_0(b0: i64) -> Vec<i64> {
    vec![0, b0]
}
unsafe fn u1_1(b0: i64) -> Vec<i64> {
    vec![1, b0]
}
unsafe fn u1_2(b0: i64) -> Vec<i64> {
    vec![2, b0]
}
impl Term for StaticFn<unsafe fn(i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(3, 1)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<unsafe fn(i64) -> Vec<i64>>::new(u1_0),
                1 => StaticFn::<unsafe fn(i64) -> Vec<i64>>::new(u1_1),
                2 => StaticFn::<unsafe fn(i64) -> Vec<i64>>::new(u1_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [u1_0 as unsafe fn(i64) -> Vec<i64> as usize, u1_1 as unsafe fn(i64) -> Vec<i64> as usize, u1_2 as unsafe fn(i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        let _ = mode;
        unsafe { (self.get_fn())(x[0]) }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        unsafe { (self.get_fn())(x[0]) }
    }
}

fn p2_0(b0: i64, b1: i64) -> Vec<i64> {
    vec![0, b0, b1]
}
fn p2_1(b0: i64, b1: i64) -> Vec<i64> {
    vec![1, b0, b1]
}
fn p2_2(b0: i64, b1: i64) -> Vec<i64> {
    vec![2, b0, b1]
}
impl Term for StaticFn<fn(i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 2)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64) -> Vec<i64>>::new(p2_0),
                1 => StaticFn::<fn(i64, i64) -> Vec<i64>>::new(p2_1),
                2 => StaticFn::<fn(i64, i64) -> Vec<i64>>::new(p2_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p2_0 as fn(i64, i64) -> Vec<i64> as usize, p2_1 as fn(i64, i64) -> Vec<i64> as usize, p2_2 as fn(i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],)),
            "mut" => self.call_object_mut((x[0],x[1],)),
            _ => (self.get_fn())(x[0], x[1]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],))
    }
}

fn p3_0(b0: i64, b1: i64, b2: i64) -> Vec<i64> {
    vec![0, b0, b1, b2]
}
fn p3_1(b0: i64, b1: i64, b2: i64) -> Vec<i64> {
    vec![1, b0, b1, b2]
}
fn p3_2(b0: i64, b1: i64, b2: i64) -> Vec<i64> {
    vec![2, b0, b1, b2]
}
impl Term for StaticFn<fn(i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 3)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64) -> Vec<i64>>::new(p3_0),
                1 => StaticFn::<fn(i64, i64, i64) -> Vec<i64>>::new(p3_1),
                2 => StaticFn::<fn(i64, i64, i64) -> Vec<i64>>::new(p3_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p3_0 as fn(i64, i64, i64) -> Vec<i64> as usize, p3_1 as fn(i64, i64, i64) -> Vec<i64> as usize, p3_2 as fn(i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],)),
            _ => (self.get_fn())(x[0], x[1], x[2]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],))
    }
}

unsafe fn u3_0(b0: i64, b1: i64, b2: i64) -> Vec<i64> {
    vec![0, b0, b1, b2]
}
unsafe fn u3_1(b0: i64, b1: i64, b2: i64) -> Vec<i64> {
    vec![1, b0, b1, b2]
}
unsafe fn u3_2(b0: i64, b1: i64, b2: i64) -> Vec<i64> {
    vec![2, b0, b1, b2]
}
impl Term for StaticFn<unsafe fn(i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(3, 3)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<unsafe fn(i64, i64, i64) -> Vec<i64>>::new(u3_0),
                1 => StaticFn::<unsafe fn(i64, i64, i64) -> Vec<i64>>::new(u3_1),
                2 => StaticFn::<unsafe fn(i64, i64, i64) -> Vec<i64>>::new(u3_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [u3_0 as unsafe fn(i64, i64, i64) -> Vec<i64> as usize, u3_1 as unsafe fn(i64, i64, i64) -> Vec<i64> as usize, u3_2 as unsafe fn(i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        let _ = mode;
        unsafe { (self.get_fn())(x[0], x[1], x[2]) }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        unsafe { (self.get_fn())(x[0], x[1], x[2]) }
    }
}

fn p4_0(b0: i64, b1: i64, b2: i64, b3: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3]
}
fn p4_1(b0: i64, b1: i64, b2: i64, b3: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3]
}
fn p4_2(b0: i64, b1: i64, b2: i64, b3: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3]
}
impl Term for StaticFn<fn(i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 4)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64) -> Vec<i64>>::new(p4_0),
                1 => StaticFn::<fn(i64, i64, i64, i64) -> Vec<i64>>::new(p4_1),
                2 => StaticFn::<fn(i64, i64, i64, i64) -> Vec<i64>>::new(p4_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p4_0 as fn(i64, i64, i64, i64) -> Vec<i64> as usize, p4_1 as fn(i64, i64, i64, i64) -> Vec<i64> as usize, p4_2 as fn(i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],))
    }
}

fn p5_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4]
}
fn p5_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4]
}
fn p5_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 5)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64) -> Vec<i64>>::new(p5_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64) -> Vec<i64>>::new(p5_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64) -> Vec<i64>>::new(p5_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p5_0 as fn(i64, i64, i64, i64, i64) -> Vec<i64> as usize, p5_1 as fn(i64, i64, i64, i64, i64) -> Vec<i64> as usize, p5_2 as fn(i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],))
    }
}

fn p6_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5]
}
fn p6_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5]
}
fn p6_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 6)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p6_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p6_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p6_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p6_0 as fn(i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p6_1 as fn(i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p6_2 as fn(i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],))
    }
}

fn p7_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6]
}
fn p7_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6]
}
fn p7_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 7)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p7_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p7_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p7_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p7_0 as fn(i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p7_1 as fn(i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p7_2 as fn(i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],))
    }
}

fn p8_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7]
}
fn p8_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7]
}
fn p8_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 8)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p8_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p8_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p8_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p8_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p8_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p8_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],))
    }
}

fn p9_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8]
}
fn p9_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8]
}
fn p9_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 9)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p9_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p9_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p9_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p9_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p9_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p9_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],))
    }
}

fn p10_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9]
}
fn p10_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9]
}
fn p10_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 10)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p10_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p10_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p10_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p10_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p10_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p10_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],))
    }
}

fn p11_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10]
}
fn p11_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10]
}
fn p11_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 11)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p11_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p11_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p11_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p11_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p11_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p11_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],))
    }
}

fn p12_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11]
}
fn p12_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11]
}
fn p12_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 12)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p12_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p12_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p12_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p12_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p12_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p12_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],))
    }
}

fn p13_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12]
}
fn p13_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12]
}
fn p13_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 13)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p13_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p13_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p13_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p13_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p13_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p13_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],))
    }
}

fn p14_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13]
}
fn p14_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13]
}
fn p14_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 14)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p14_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p14_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p14_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p14_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p14_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p14_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],))
    }
}

fn p15_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14]
}
fn p15_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14]
}
fn p15_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 15)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p15_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p15_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p15_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p15_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p15_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p15_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],))
    }
}

fn p16_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15]
}
fn p16_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15]
}
fn p16_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 16)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p16_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p16_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p16_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p16_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p16_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p16_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],))
    }
}

fn p17_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16]
}
fn p17_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16]
}
fn p17_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 17)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p17_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p17_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p17_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p17_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p17_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p17_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],))
    }
}

fn p18_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17]
}
fn p18_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17]
}
fn p18_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 18)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p18_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p18_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p18_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p18_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p18_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p18_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],))
    }
}

fn p19_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18]
}
fn p19_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18]
}
fn p19_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 19)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p19_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p19_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p19_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p19_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p19_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p19_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],))
    }
}

fn p20_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64, b19: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19]
}
fn p20_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64, b19: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19]
}
fn p20_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64, b19: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19]
}
impl Term for StaticFn<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(0, 20)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p20_0),
                1 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p20_1),
                2 => StaticFn::<fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(p20_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [p20_0 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p20_1 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, p20_2 as fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        match mode {
            "ref" => self.call_object((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],x[19],)),
            "mut" => self.call_object_mut((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],x[19],)),
            _ => (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19]),
        }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        self.call_object_once((x[0],x[1],x[2],x[3],x[4],x[5],x[6],x[7],x[8],x[9],x[10],x[11],x[12],x[13],x[14],x[15],x[16],x[17],x[18],x[19],))
    }
}

unsafe fn u20_0(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64, b19: i64) -> Vec<i64> {
    vec![0, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19]
}
unsafe fn u20_1(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64, b19: i64) -> Vec<i64> {
    vec![1, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19]
}
unsafe fn u20_2(b0: i64, b1: i64, b2: i64, b3: i64, b4: i64, b5: i64, b6: i64, b7: i64, b8: i64, b9: i64, b10: i64, b11: i64, b12: i64, b13: i64, b14: i64, b15: i64, b16: i64, b17: i64, b18: i64, b19: i64) -> Vec<i64> {
    vec![2, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19]
}
impl Term for StaticFn<unsafe fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>> {
    fn ty(_: &mut Reg) -> J {
        crate::fn_kind(3, 20)
    }
    fn build(v: &J, _: &mut Cx) -> Self {
        unsafe {
            match v.n("n") {
                0 => StaticFn::<unsafe fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(u20_0),
                1 => StaticFn::<unsafe fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(u20_1),
                2 => StaticFn::<unsafe fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64>>::new(u20_2),
                _ => panic!("HARNESS: no such function"),
            }
        }
    }
    fn obs(&self, _: &mut Ox) -> J {
        let p = self.get_fn() as usize;
        let all = [u20_0 as unsafe fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, u20_1 as unsafe fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize, u20_2 as unsafe fn(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64) -> Vec<i64> as usize];
        t(all.iter().position(|x| *x == p).map_or(-1, |x| x as i64), vec![])
    }
    fn call(&mut self, mode: &str, x: &[i64]) -> Vec<i64> {
        let _ = x;
        let _ = mode;
        unsafe { (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19]) }
    }
    fn call_once(self, x: &[i64]) -> Vec<i64> {
        let _ = x;
        unsafe { (self.get_fn())(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], x[18], x[19]) }
    }
}

