//! Which of the types can be sent to and shared between threads?

use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::MutexGuard;

use treena::dynamic::*;
use treena_base::kinds::{StructId, TupleId};

struct Is<T: ?Sized>(PhantomData<T>);
trait Not {
    const SEND: bool = false;
}
trait Nor {
    const SYNC: bool = false;
}
impl<T: ?Sized> Not for Is<T> {}
impl<T: ?Sized> Nor for Is<T> {}
impl<T: ?Sized + Send> Is<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Is<T> {
    const SYNC: bool = true;
}

fn check(n: &mut u32, bad: &mut u32, name: &str, have: (bool, bool), want: (bool, bool)) {
    *n += 1;
    if have != want {
        *bad += 1;
        println!("VIOLATED {name}: (Send, Sync) is {have:?}, must be {want:?}");
    }
}

macro_rules! go {
    ($n:ident, $bad:ident, $($t:ty => $want:expr),* $(,)?) => {
        $(check(&mut $n, &mut $bad, stringify!($t), (<Is<$t>>::SEND, <Is<$t>>::SYNC), $want);)*
    };
}
/// All types with one data type of the given (Send, Sync), and one ID type.
macro_rules! with {
    ($n:ident, $bad:ident, $id:ty, $d:ty, $send:expr, $sync:expr) => {
        go!($n, $bad,
            Forest<$id, $d> => ($send, $sync),
            NodeMut<'static, $id, $d> => ($send, $sync),
            ChainTreeBuilder<'static, $id, $d> => ($send, $sync),
            NestTreeBuilder<'static, $id, $d> => ($send, $sync),
            Node<'static, $id, $d> => ($sync, $sync),
            DftEvent<Node<'static, $id, $d>> => ($sync, $sync),
            DepthFirstTraverse<'static, $id, $d> => ($sync, $sync),
            ShallowDepthFirstTraverse<'static, $id, $d> => ($sync, $sync),
            BreadthFirstTraverse<'static, $id, $d> => ($sync, $sync),
            AllocatingBreadthFirstTraverse<'static, $id, $d> => ($sync, $sync),
            Ancestors<'static, $id, $d> => ($sync, $sync),
            Siblings<'static, $id, $d> => ($sync, $sync),
            DebugPrint<'static, $id, $d> => ($sync, $sync),
        );
    };
}

fn main() {
    let (mut n, mut bad) = (0, 0);
    macro_rules! ids {
        ($($id:ty),*) => {$(
            with!(n, bad, $id, u32, true, true);
            with!(n, bad, $id, String, true, true);
            with!(n, bad, $id, Cell<u32>, true, false);
            with!(n, bad, $id, MutexGuard<'static, u32>, false, true);
            with!(n, bad, $id, Rc<u32>, false, false);
            go!(n, bad, $id => (true, true), InsertAs<$id> => (true, true), Option<$id> => (true, true));
        )*};
    }
    ids!(NodeIdUsize, NodeIdU8, NodeIdU16, NodeIdU32, NodeIdU64, TupleId, StructId);
    go!(n, bad, AdoptAs => (true, true), StructureError => (true, true));
    println!("TYPES {n}");
    std::process::exit(i32::from(bad > 0));
}
