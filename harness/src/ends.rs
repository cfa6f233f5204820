//! Ways of consuming the rest of an iterator, each compared with the slice it should show. The provided methods of
//! `Iterator` can be overridden one by one, so each is called on the iterator itself, by value where it takes it so.
use crate::engine::R;
use crate::ensure;
use std::fmt::Debug;

fn cut<T: Debug>(x: &[T]) -> String {
    format!("{} elements {:?}{}", x.len(), &x[..x.len().min(12)], if x.len() > 12 { "…" } else { "" })
}

fn same<T: Debug + PartialEq>(what: &str, how: &str, got: &[T], want: &[T]) -> R {
    ensure!(got == want, "{what}: {how} gives {}, should be {}", cut(got), cut(want));
    Ok(())
}

pub const FWD: u32 = 24;

/// Consumes the rest of `it`, which should show `want`.
pub fn fwd<I: Iterator, T: Debug + PartialEq + Copy + Ord>(what: &str, mut it: I, conv: impl Fn(I::Item) -> T, want: &[T], how: u32, arg: u32) -> R {
    let n = want.len();
    // a position, mostly inside
    let p = arg as usize % (n + 2);
    let stop = want.get(p).copied();
    match how % FWD {
        0 => same(what, "collect", &it.map(conv).collect::<Vec<_>>(), want),
        1 => {
            let mut g = vec![];
            it.for_each(|x| g.push(conv(x)));
            same(what, "for_each", &g, want)
        }
        2 => {
            let g = it.fold(vec![], |mut g, x| {
                g.push(conv(x));
                g
            });
            same(what, "fold", &g, want)
        }
        3 => {
            let c = it.count();
            ensure!(c == n, "{what}: count is {c}, should be {n}");
            Ok(())
        }
        4 => {
            let (g, w) = (it.last().map(conv), want.last().copied());
            ensure!(g == w, "{what}: last is {g:?}, should be {w:?}");
            Ok(())
        }
        5 => {
            // stops somewhere, and goes on from there
            let mut g = vec![];
            let r = it.try_fold(0usize, |k, x| {
                g.push(conv(x));
                if k == p { Err(k) } else { Ok(k + 1) }
            });
            ensure!(r == if p < n { Err(p) } else { Ok(n) }, "{what}: try_fold stopped at {r:?}, should at {p} of {n}");
            same(what, "try_fold", &g, &want[..(p + 1).min(n)])?;
            same(what, "what try_fold leaves", &it.map(conv).collect::<Vec<_>>(), &want[(p + 1).min(n)..])
        }
        6 => {
            let mut g = vec![];
            let r = it.try_for_each(|x| {
                g.push(conv(x));
                (g.len() <= p).then_some(())
            });
            ensure!(r.is_none() == (p < n), "{what}: try_for_each stopped wrongly");
            same(what, "try_for_each", &g, &want[..(p + 1).min(n)])?;
            same(what, "what try_for_each leaves", &it.map(conv).collect::<Vec<_>>(), &want[(p + 1).min(n)..])
        }
        7 => {
            let mut k = 0;
            let g = it.position(|x| {
                k += 1;
                Some(conv(x)) == stop
            });
            let w = want.iter().position(|x| Some(*x) == stop);
            ensure!(g == w && k == w.map_or(n, |w| w + 1), "{what}: position is {g:?} after {k} elements, should be {w:?}");
            same(what, "what position leaves", &it.map(conv).collect::<Vec<_>>(), &want[w.map_or(n, |w| w + 1)..])
        }
        8 => {
            let w = want.iter().position(|x| Some(*x) == stop);
            let g = it.any(|x| Some(conv(x)) == stop);
            ensure!(g == w.is_some(), "{what}: any is {g}");
            same(what, "what any leaves", &it.map(conv).collect::<Vec<_>>(), &want[w.map_or(n, |w| w + 1)..])
        }
        9 => {
            let w = want.iter().position(|x| Some(*x) == stop);
            let g = it.all(|x| Some(conv(x)) != stop);
            ensure!(g == w.is_none(), "{what}: all is {g}");
            same(what, "what all leaves", &it.map(conv).collect::<Vec<_>>(), &want[w.map_or(n, |w| w + 1)..])
        }
        10 => {
            let w = want.iter().position(|x| Some(*x) == stop);
            let g = it.find_map(|x| Some(conv(x)).filter(|x| Some(*x) == stop));
            ensure!(g == w.map(|w| want[w]), "{what}: find_map is {g:?}");
            same(what, "what find_map leaves", &it.map(conv).collect::<Vec<_>>(), &want[w.map_or(n, |w| w + 1)..])
        }
        11 => {
            let (g, w) = (it.map(conv).max(), want.iter().copied().max());
            ensure!(g == w, "{what}: map().max is {g:?}, should be {w:?}");
            Ok(())
        }
        12 => {
            let (g, w) = (it.max_by(|_, _| std::cmp::Ordering::Equal).map(conv), want.last().copied());
            ensure!(g == w, "{what}: max_by of equal elements is {g:?}, should be the last, {w:?}");
            Ok(())
        }
        13 => {
            let (g, w) = (it.min_by(|_, _| std::cmp::Ordering::Equal).map(conv), want.first().copied());
            ensure!(g == w, "{what}: min_by of equal elements is {g:?}, should be the first, {w:?}");
            Ok(())
        }
        14 => {
            let (g, w) = (it.reduce(|_, b| b).map(conv), want.last().copied());
            ensure!(g == w, "{what}: reduce to the last is {g:?}, should be {w:?}");
            Ok(())
        }
        15 => {
            let mut i = 0;
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| {
                i += 1;
                i % 2 == 1
            });
            let (a, b): (Vec<T>, Vec<T>) = (a.into_iter().map(&conv).collect(), b.into_iter().map(&conv).collect());
            same(what, "partition (odd places)", &a, &want.iter().copied().step_by(2).collect::<Vec<_>>())?;
            same(what, "partition (even places)", &b, &want.iter().copied().skip(1).step_by(2).collect::<Vec<_>>())
        }
        16 => {
            let (sk, st) = (p, 1 + (arg >> 16) as usize % 4);
            let g: Vec<T> = it.skip(sk).step_by(st).map(conv).collect();
            same(what, &format!("skip({sk}).step_by({st})"), &g, &want.iter().copied().skip(sk).step_by(st).collect::<Vec<_>>())
        }
        17 => {
            let (l, tl) = (p, arg as usize / (n + 2) % (n + 2));
            let g: Vec<T> = it.skip(l).take(tl).map(conv).collect();
            same(what, &format!("skip({l}).take({tl})"), &g, &want.iter().copied().skip(l).take(tl).collect::<Vec<_>>())
        }
        18 => {
            let mut g = std::collections::VecDeque::new();
            g.extend(it.map(conv));
            same(what, "extend", &g.make_contiguous()[..], want)
        }
        19 => {
            let mut pk = it.peekable();
            let mut g = vec![];
            loop {
                let seen = pk.peek().is_some();
                match pk.next() {
                    Some(x) => {
                        ensure!(seen, "{what}: peek and next disagree");
                        g.push(conv(x));
                    }
                    None => break,
                }
            }
            same(what, "peekable", &g, want)
        }
        20 => {
            let g: Vec<T> = it.by_ref().take(p).map(&conv).collect();
            same(what, "by_ref().take()", &g, &want[..p.min(n)])?;
            let g: Vec<T> = it.map(conv).collect();
            same(what, "collect after by_ref", &g, &want[p.min(n)..])
        }
        21 => {
            let g: Vec<T> = it.zip(0..p).map(|(x, _)| conv(x)).collect();
            same(what, "zip", &g, &want[..p.min(n)])
        }
        22 => {
            let g: Vec<T> = it.map(|x| Some(conv(x))).chain(std::iter::once(None)).flatten().collect();
            same(what, "chain().flatten()", &g, want)
        }
        _ => {
            let mut g = vec![];
            for x in it {
                g.push(conv(x));
                if g.len() > n {
                    break;
                }
            }
            same(what, "for", &g, want)
        }
    }
}

pub const BWD: u32 = 13;

/// The same from the other end, and from both.
pub fn dbl<I: DoubleEndedIterator, T: Debug + PartialEq + Copy + Ord>(what: &str, mut it: I, conv: impl Fn(I::Item) -> T, want: &[T], how: u32, arg: u32) -> R {
    let n = want.len();
    let back: Vec<T> = want.iter().rev().copied().collect();
    let p = arg as usize % (n + 2);
    let stop = back.get(p).copied();
    let h = how % (FWD + BWD + FWD);
    if h < FWD {
        return fwd(what, it, conv, want, h, arg);
    }
    if h >= FWD + BWD {
        return fwd(&format!("{what} rev()"), it.rev(), conv, &back, h, arg);
    }
    match h - FWD {
        0 => {
            let g = it.rfold(vec![], |mut g, x| {
                g.push(conv(x));
                g
            });
            same(what, "rfold", &g, &back)
        }
        1 => {
            let mut g = vec![];
            let r = it.try_rfold(0usize, |k, x| {
                g.push(conv(x));
                if k == p { Err(k) } else { Ok(k + 1) }
            });
            ensure!(r == if p < n { Err(p) } else { Ok(n) }, "{what}: try_rfold stopped at {r:?}, should at {p} of {n}");
            same(what, "try_rfold", &g, &back[..(p + 1).min(n)])?;
            let left = n - (p + 1).min(n);
            same(what, "what try_rfold leaves", &it.map(conv).collect::<Vec<_>>(), &want[..left])
        }
        2 => {
            let w = back.iter().position(|x| Some(*x) == stop);
            let mut k = 0;
            let g = it.rfind(|_| {
                k += 1;
                k == p + 1
            });
            let g = g.map(&conv);
            ensure!(g == stop, "{what}: rfind of the element {p} from the end is {g:?}, should be {stop:?}");
            let _ = w;
            same(what, "what rfind leaves", &it.map(conv).collect::<Vec<_>>(), &want[..n - (p + 1).min(n)])
        }
        3 => {
            let mut g = vec![];
            it.rev().for_each(|x| g.push(conv(x)));
            same(what, "rev().for_each", &g, &back)
        }
        4 => {
            let (mut a, mut b) = (vec![], vec![]);
            let mut k = arg;
            loop {
                k = k.rotate_left(1);
                let x = if k & 1 == 0 { it.next() } else { it.next_back() };
                match x {
                    Some(x) if k & 1 == 0 => a.push(conv(x)),
                    Some(x) => b.push(conv(x)),
                    None => break,
                }
                ensure!(a.len() + b.len() <= n, "{what}: next and next_back give more than {n} elements");
            }
            b.reverse();
            a.extend(b);
            same(what, "next and next_back", &a, want)
        }
        5 => {
            let mut a: Vec<T> = it.by_ref().take(p).map(&conv).collect();
            let mut b: Vec<T> = it.rev().map(&conv).collect();
            b.reverse();
            a.append(&mut b);
            same(what, "take, then rev", &a, want)
        }
        6 => {
            let mut b: Vec<T> = it.by_ref().rev().take(p).map(&conv).collect();
            let mut a: Vec<T> = it.map(&conv).collect();
            b.reverse();
            a.append(&mut b);
            same(what, "rev().take, then the rest", &a, want)
        }
        7 => {
            // the rest by folding, after steps at the far end
            let mut b = vec![];
            for _ in 0..p {
                b.extend(it.next_back().map(&conv));
            }
            let mut a = it.fold(vec![], |mut g, x| {
                g.push(conv(x));
                g
            });
            b.reverse();
            a.append(&mut b);
            same(what, "next_back, then fold", &a, want)
        }
        8 => {
            let mut a = vec![];
            for _ in 0..p {
                a.extend(it.next().map(&conv));
            }
            let mut b = it.rfold(vec![], |mut g, x| {
                g.push(conv(x));
                g
            });
            b.reverse();
            a.append(&mut b);
            same(what, "next, then rfold", &a, want)
        }
        9 => {
            for _ in 0..p {
                it.next_back();
            }
            let (g, w) = (it.last().map(conv), want[..n - p.min(n)].last().copied());
            ensure!(g == w, "{what}: last after {p} next_back is {g:?}, should be {w:?}");
            Ok(())
        }
        10 => {
            for _ in 0..p {
                it.next_back();
            }
            let (g, w) = (it.count(), n - p.min(n));
            ensure!(g == w, "{what}: count after {p} next_back is {g:?}, should be {w:?}");
            Ok(())
        }
        11 => {
            for _ in 0..p {
                it.next();
            }
            let (g, w) = (it.rev().last().map(conv), want[p.min(n)..].first().copied());
            ensure!(g == w, "{what}: rev().last() after {p} next is {g:?}, should be {w:?}");
            Ok(())
        }
        _ => {
            let g: Vec<T> = it.rev().skip(p).step_by(1 + (arg >> 16) as usize % 4).map(conv).collect();
            let w: Vec<T> = back.iter().skip(p).step_by(1 + (arg >> 16) as usize % 4).copied().collect();
            same(what, "rev().skip().step_by()", &g, &w)
        }
    }
}
