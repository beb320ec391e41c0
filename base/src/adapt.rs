//! The methods of iterators that are derived from `next` and `next_back`, without allocations.
//!
//! The results are digests, which can be compared with those over a list of the expected items.

fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23)
}

/// Number of ways in [`forward`].
pub const FORWARD: usize = 18;
/// Number of ways in [`backward`].
pub const BACKWARD: usize = 10;

/// Consumes the iterator in one way.
pub fn forward<It: Iterator>(mut it: It, how: usize, f: impl Fn(It::Item) -> u64) -> u64
where
    It::Item: Clone,
{
    match how % FORWARD {
        0 => it.count() as u64,
        1 => it.last().map_or(1, f),
        2 => it.fold(5, |h, x| mix(h, f(x))),
        3 => {
            let mut h = 5;
            it.for_each(|x| h = mix(h, f(x)));
            h
        }
        4 => {
            let mut h = 5;
            while let Some(x) = it.nth(2) {
                h = mix(h, f(x));
            }
            h
        }
        5 => it.max_by_key(|x| f(x.clone())).map_or(1, f),
        6 => it.min_by_key(|x| f(x.clone())).map_or(1, f),
        7 => it.all(|x| f(x) != u64::MAX) as u64,
        8 => it.any(|x| f(x) == u64::MAX) as u64,
        9 => it.find(|x| f(x.clone()) == u64::MAX).map_or(1, f),
        10 => it.position(|x| f(x) == u64::MAX).map_or(1, |x| x as u64),
        11 => it.try_fold(5, |h, x| Some(mix(h, f(x)))).unwrap_or(1),
        12 => it.reduce(|a, b| if f(a.clone()) % 7 < f(b.clone()) % 7 { b } else { a }).map_or(1, f),
        13 => {
            let mut h = 5;
            for x in it.by_ref().step_by(3) {
                h = mix(h, f(x));
            }
            mix(h, it.next().is_some() as u64)
        }
        14 => {
            let (mut a, mut b) = (3, 4);
            let _ = it.map(f).try_for_each(|x| {
                let h = if x % 2 == 0 { &mut a } else { &mut b };
                *h = mix(*h, x);
                if x == u64::MAX { Err(()) } else { Ok(()) }
            });
            mix(a, b)
        }
        15 => it.skip(1).take_while(|x| f(x.clone()) != u64::MAX).map(&f).fold(5, mix),
        16 => it.is_sorted_by_key(|x| f(x)) as u64,
        _ => it.nth(usize::MAX / 2).map_or(1, f),
    }
}

/// Consumes the iterator from the back in one way.
pub fn backward<It: DoubleEndedIterator>(mut it: It, how: usize, f: impl Fn(It::Item) -> u64) -> u64
where
    It::Item: Clone,
{
    match how % BACKWARD {
        0 => it.rev().count() as u64,
        1 => it.rev().last().map_or(1, f),
        2 => it.rfold(5, |h, x| mix(h, f(x))),
        3 => {
            let mut h = 5;
            while let Some(x) = it.nth_back(2) {
                h = mix(h, f(x));
            }
            h
        }
        4 => it.rfind(|x| f(x.clone()) == u64::MAX).map_or(1, f),
        5 => it.try_rfold(5, |h, x| Some(mix(h, f(x)))).unwrap_or(1),
        6 => it.rev().fold(5, |h, x| mix(h, f(x))),
        7 => it.nth_back(usize::MAX / 2).map_or(1, f),
        8 => {
            let a = it.next().map_or(1, &f);
            let b = it.nth_back(1).map_or(1, &f);
            mix(mix(a, b), it.last().map_or(1, f))
        }
        _ => {
            let b = it.next_back().map_or(1, &f);
            let a = it.nth(1).map_or(1, &f);
            mix(mix(a, b), it.rfold(5, |h, x| mix(h, f(x))))
        }
    }
}
