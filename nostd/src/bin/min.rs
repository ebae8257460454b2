//! C21: neither std nor alloc is named: what the macro and the crate need they bring themselves
#![no_std]
#![no_main]
use core::alloc::{GlobalAlloc, Layout};
use core::ffi::{c_int, c_void};
#[link(name = "c")]
extern "C" {
    fn write(fd: c_int, p: *const c_void, n: usize) -> isize;
    fn _exit(code: c_int) -> !;
    fn aligned_alloc(a: usize, n: usize) -> *mut u8;
    fn free(p: *mut c_void);
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        aligned_alloc(l.align().max(8), (l.size() + l.align().max(8) - 1) & !(l.align().max(8) - 1))
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        free(p as *mut c_void)
    }
}
#[global_allocator]
static GLOBAL: A = A;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { _exit(42) }
}
mod enums {
    use tagged_box::{tagged_box, TaggableContainer, TaggableInner};
    tagged_box! {
        #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct Container, pub enum Item { U, A(u8), B(u16, u64), C { x: [u32; 3], y: bool }, D { z: i8, }, E(), }
    }
    tagged_box! { pub struct P, pub enum PK { A(u8), B(&'static str, char), } }
    // tuples of every length: an enum each for 2 to 12, 13 to 22 and 23 to 32 fields
    tagged_box! {
        #[derive(Clone, PartialEq, PartialOrd)]
        struct Every0, enum Each0 {
            T2(u8, u32),
            T3(u32, bool, i64),
            T4(bool, i64, u8, u16),
            T5(i64, u8, u16, u8, u32),
            T6(u8, u16, u8, u32, bool, i64),
            T7(u16, u8, u32, bool, i64, u8, u16),
            T8(u8, u32, bool, i64, u8, u16, u8, u32),
            T9(u32, bool, i64, u8, u16, u8, u32, bool, i64),
            T10(bool, i64, u8, u16, u8, u32, bool, i64, u8, u16),
            T11(i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32),
            T12(u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64),
        }
    }
    tagged_box! {
        #[derive(Clone, PartialEq, PartialOrd)]
        struct Every1, enum Each1 {
            T13(u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16),
            T14(u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32),
            T15(u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64),
            T16(bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16),
            T17(i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32),
            T18(u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64),
            T19(u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16),
            T20(u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32),
            T21(u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64),
            T22(bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16),
        }
    }
    tagged_box! {
        #[derive(Clone, PartialEq, PartialOrd)]
        struct Every2, enum Each2 {
            T23(i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32),
            T24(u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64),
            T25(u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16),
            T26(u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32),
            T27(u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64),
            T28(bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16),
            T29(i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32),
            T30(u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64),
            T31(u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16),
            T32(u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32, bool, i64, u8, u16, u8, u32),
        }
    }
    pub fn run() -> bool {
        let xs = [Item::U, Item::A(3), Item::B(4, 5), Item::C { x: [6, 7, 8], y: true }, Item::D { z: -9 }, Item::E()];
        let mut ok = true;
        for (k, x) in xs.iter().enumerate() {
            let c = Container::from(x.clone());
            ok &= c.clone() == c && c.value.discriminant() as usize == k && Item::from_tagged_box(c.clone().value) == *x && c.into_inner() == *x;
        }
        ok &= Container::from(3).into_inner() == Item::A(3) && Container::from((4, 5)).into_inner() == Item::B(4, 5) && Container::from(()).into_inner() == Item::E();
        ok &= matches!(Every0::from((1, 2)).clone().into_inner(), Each0::T2(1, 2));
        let x = Each0::T2(1, 2);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 0;
        ok &= matches!(Every0::from((1, true, -3)).clone().into_inner(), Each0::T3(1, true, -3));
        let x = Each0::T3(1, true, -3);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 1;
        ok &= matches!(Every0::from((false, -2, 3, 4)).clone().into_inner(), Each0::T4(false, -2, 3, 4));
        let x = Each0::T4(false, -2, 3, 4);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 2;
        ok &= matches!(Every0::from((-1, 2, 3, 4, 5)).clone().into_inner(), Each0::T5(-1, 2, 3, 4, 5));
        let x = Each0::T5(-1, 2, 3, 4, 5);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 3;
        ok &= matches!(Every0::from((1, 2, 3, 4, true, -6)).clone().into_inner(), Each0::T6(1, 2, 3, 4, true, -6));
        let x = Each0::T6(1, 2, 3, 4, true, -6);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 4;
        ok &= matches!(Every0::from((1, 2, 3, false, -5, 6, 7)).clone().into_inner(), Each0::T7(1, 2, 3, false, -5, 6, 7));
        let x = Each0::T7(1, 2, 3, false, -5, 6, 7);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 5;
        ok &= matches!(Every0::from((1, 2, true, -4, 5, 6, 7, 8)).clone().into_inner(), Each0::T8(1, 2, true, -4, 5, 6, 7, 8));
        let x = Each0::T8(1, 2, true, -4, 5, 6, 7, 8);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 6;
        ok &= matches!(Every0::from((1, true, -3, 4, 5, 6, 7, true, -9)).clone().into_inner(), Each0::T9(1, true, -3, 4, 5, 6, 7, true, -9));
        let x = Each0::T9(1, true, -3, 4, 5, 6, 7, true, -9);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 7;
        ok &= matches!(Every0::from((false, -2, 3, 4, 5, 6, false, -8, 9, 10)).clone().into_inner(), Each0::T10(false, -2, 3, 4, 5, 6, false, -8, 9, 10));
        let x = Each0::T10(false, -2, 3, 4, 5, 6, false, -8, 9, 10);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 8;
        ok &= matches!(Every0::from((-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11)).clone().into_inner(), Each0::T11(-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11));
        let x = Each0::T11(-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 9;
        ok &= matches!(Every0::from((1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12)).clone().into_inner(), Each0::T12(1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12));
        let x = Each0::T12(1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12);
        ok &= Every0::from(x.clone()) == Every0::from(x.clone()) && Each0::from_tagged_box(x.clone().into_tagged_box()) == x && Every0::from(x).value.discriminant() == 10;
        ok &= matches!(Every1::from((1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13)).clone().into_inner(), Each1::T13(1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13));
        let x = Each1::T13(1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 0;
        ok &= matches!(Every1::from((1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14)).clone().into_inner(), Each1::T14(1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14));
        let x = Each1::T14(1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 1;
        ok &= matches!(Every1::from((1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15)).clone().into_inner(), Each1::T15(1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15));
        let x = Each1::T15(1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 2;
        ok &= matches!(Every1::from((false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16)).clone().into_inner(), Each1::T16(false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16));
        let x = Each1::T16(false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 3;
        ok &= matches!(Every1::from((-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17)).clone().into_inner(), Each1::T17(-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17));
        let x = Each1::T17(-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 4;
        ok &= matches!(Every1::from((1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18)).clone().into_inner(), Each1::T18(1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18));
        let x = Each1::T18(1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 5;
        ok &= matches!(Every1::from((1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19)).clone().into_inner(), Each1::T19(1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19));
        let x = Each1::T19(1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 6;
        ok &= matches!(Every1::from((1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20)).clone().into_inner(), Each1::T20(1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20));
        let x = Each1::T20(1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 7;
        ok &= matches!(Every1::from((1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15, 16, 17, 18, 19, true, -21)).clone().into_inner(), Each1::T21(1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15, 16, 17, 18, 19, true, -21));
        let x = Each1::T21(1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15, 16, 17, 18, 19, true, -21);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 8;
        ok &= matches!(Every1::from((false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16, 17, 18, false, -20, 21, 22)).clone().into_inner(), Each1::T22(false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16, 17, 18, false, -20, 21, 22));
        let x = Each1::T22(false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16, 17, 18, false, -20, 21, 22);
        ok &= Every1::from(x.clone()) == Every1::from(x.clone()) && Each1::from_tagged_box(x.clone().into_tagged_box()) == x && Every1::from(x).value.discriminant() == 9;
        ok &= matches!(Every2::from((-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17, true, -19, 20, 21, 22, 23)).clone().into_inner(), Each2::T23(-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17, true, -19, 20, 21, 22, 23));
        let x = Each2::T23(-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17, true, -19, 20, 21, 22, 23);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 0;
        ok &= matches!(Every2::from((1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18, 19, 20, 21, 22, true, -24)).clone().into_inner(), Each2::T24(1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18, 19, 20, 21, 22, true, -24));
        let x = Each2::T24(1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18, 19, 20, 21, 22, true, -24);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 1;
        ok &= matches!(Every2::from((1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19, 20, 21, false, -23, 24, 25)).clone().into_inner(), Each2::T25(1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19, 20, 21, false, -23, 24, 25));
        let x = Each2::T25(1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19, 20, 21, false, -23, 24, 25);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 2;
        ok &= matches!(Every2::from((1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20, true, -22, 23, 24, 25, 26)).clone().into_inner(), Each2::T26(1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20, true, -22, 23, 24, 25, 26));
        let x = Each2::T26(1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20, true, -22, 23, 24, 25, 26);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 3;
        ok &= matches!(Every2::from((1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15, 16, 17, 18, 19, true, -21, 22, 23, 24, 25, true, -27)).clone().into_inner(), Each2::T27(1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15, 16, 17, 18, 19, true, -21, 22, 23, 24, 25, true, -27));
        let x = Each2::T27(1, true, -3, 4, 5, 6, 7, true, -9, 10, 11, 12, 13, true, -15, 16, 17, 18, 19, true, -21, 22, 23, 24, 25, true, -27);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 4;
        ok &= matches!(Every2::from((false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16, 17, 18, false, -20, 21, 22, 23, 24, false, -26, 27, 28)).clone().into_inner(), Each2::T28(false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16, 17, 18, false, -20, 21, 22, 23, 24, false, -26, 27, 28));
        let x = Each2::T28(false, -2, 3, 4, 5, 6, false, -8, 9, 10, 11, 12, false, -14, 15, 16, 17, 18, false, -20, 21, 22, 23, 24, false, -26, 27, 28);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 5;
        ok &= matches!(Every2::from((-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17, true, -19, 20, 21, 22, 23, true, -25, 26, 27, 28, 29)).clone().into_inner(), Each2::T29(-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17, true, -19, 20, 21, 22, 23, true, -25, 26, 27, 28, 29));
        let x = Each2::T29(-1, 2, 3, 4, 5, true, -7, 8, 9, 10, 11, true, -13, 14, 15, 16, 17, true, -19, 20, 21, 22, 23, true, -25, 26, 27, 28, 29);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 6;
        ok &= matches!(Every2::from((1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18, 19, 20, 21, 22, true, -24, 25, 26, 27, 28, true, -30)).clone().into_inner(), Each2::T30(1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18, 19, 20, 21, 22, true, -24, 25, 26, 27, 28, true, -30));
        let x = Each2::T30(1, 2, 3, 4, true, -6, 7, 8, 9, 10, true, -12, 13, 14, 15, 16, true, -18, 19, 20, 21, 22, true, -24, 25, 26, 27, 28, true, -30);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 7;
        ok &= matches!(Every2::from((1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19, 20, 21, false, -23, 24, 25, 26, 27, false, -29, 30, 31)).clone().into_inner(), Each2::T31(1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19, 20, 21, false, -23, 24, 25, 26, 27, false, -29, 30, 31));
        let x = Each2::T31(1, 2, 3, false, -5, 6, 7, 8, 9, false, -11, 12, 13, 14, 15, false, -17, 18, 19, 20, 21, false, -23, 24, 25, 26, 27, false, -29, 30, 31);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 8;
        ok &= matches!(Every2::from((1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20, true, -22, 23, 24, 25, 26, true, -28, 29, 30, 31, 32)).clone().into_inner(), Each2::T32(1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20, true, -22, 23, 24, 25, 26, true, -28, 29, 30, 31, 32));
        let x = Each2::T32(1, 2, true, -4, 5, 6, 7, 8, true, -10, 11, 12, 13, 14, true, -16, 17, 18, 19, 20, true, -22, 23, 24, 25, 26, true, -28, 29, 30, 31, 32);
        ok &= Every2::from(x.clone()) == Every2::from(x.clone()) && Each2::from_tagged_box(x.clone().into_tagged_box()) == x && Every2::from(x).value.discriminant() == 9;
        ok & matches!(P::from(("b", 'c')).into_inner(), PK::B("b", 'c')) & matches!(P::from(1).into_inner(), PK::A(1))
    }
}
#[no_mangle]
extern "C" fn main() -> c_int {
    let s: &[u8] = if enums::run() { b"as expected\n" } else { b"something else\n" };
    unsafe { write(1, s.as_ptr() as *const c_void, s.len()) };
    0
}
#[no_mangle]
extern "C" fn rust_eh_personality() {}
#[no_mangle]
extern "C" fn _Unwind_Resume() -> ! {
    unsafe { _exit(43) }
}
