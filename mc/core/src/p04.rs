//! P04: vector byte scanners give the answer of the obvious one-byte-at-a-time loop.
use mc_kit::*;
use oak_core::source::SimdScanner as S;

fn all(text: &[u8], cx: &mut Cx) -> Res {
    let ctx = || format!("{} bytes at address {} mod 16", text.len(), text.as_ptr() as usize % 16);
    let run = |f: &dyn Fn(u8) -> bool| text.iter().take_while(|b| f(**b)).count();
    cx.exec();
    cx.steps(12);
    ensure_eq!(S::skip_ascii_whitespace(text), run(&|b| matches!(b, b' ' | b'\t' | b'\n' | b'\r')), "whitespace", "{} {text:?}", ctx());
    ensure_eq!(S::skip_ascii_digits(text), run(&|b| b.is_ascii_digit()), "digits", "{} {text:?}", ctx());
    ensure_eq!(S::skip_ascii_hexdigits(text), run(&|b| b.is_ascii_hexdigit()), "hexdigits", "{} {text:?}", ctx());
    ensure_eq!(S::skip_ascii_ident_continue(text), run(&|b| b.is_ascii_alphanumeric() || b == b'_'), "identifier", "{} {text:?}", ctx());
    Ok(())
}
fn needles(text: &[u8], a: u8, b: u8, cx: &mut Cx) -> Res {
    cx.exec();
    cx.steps(6);
    let find = |f: &dyn Fn(u8) -> bool| text.iter().position(|x| f(*x));
    ensure_eq!(S::find_byte(text, a), find(&|x| x == a), "find_byte", "{text:?} {a}");
    ensure_eq!(S::skip_byte(text, a), find(&|x| x != a).unwrap_or(text.len()), "skip_byte", "{text:?} {a}");
    ensure_eq!(S::skip_two_bytes(text, a, b), find(&|x| x != a && x != b).unwrap_or(text.len()), "skip_two", "{text:?} {a} {b}");
    ensure_eq!(S::skip_until(text, a), find(&|x| x == a).unwrap_or(text.len()), "skip_until", "{text:?} {a}");
    for q in [[a, b, a, b], [b, a, 1, 2], [1, b, 2, a], [1, 2, a, b], [3, 1, 2, b]] {
        ensure_eq!(S::find_first_of_4(text, q[0], q[1], q[2], q[3]), find(&|x| q.contains(&x)), "find4", "{text:?} {q:?}");
    }
    use oak_core::lexer::{scan_number::*, scan_string, scan_white_space};
    ensure_eq!(count_ascii_digit_prefix(text), text.iter().take_while(|b| b.is_ascii_digit()).count(), "digits", "{text:?}");
    ensure_eq!(count_ascii_hexdigit_prefix(text), text.iter().take_while(|b| b.is_ascii_hexdigit()).count(), "hexdigits", "{text:?}");
    ensure_eq!(scan_white_space::count_space_tab_prefix(text), find(&|x| x != b' ' && x != b'\t').unwrap_or(text.len()), "skip_two", "{text:?}");
    ensure_eq!(scan_string::find_first_of_4(text, a, b, 1, 2), find(&|x| [a, b, 1, 2].contains(&x)), "find4", "{text:?}");
    Ok(())
}

pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let maxlen = tier.pick(131u64, 260);
    let aligns: &'static [usize] = tier.pick(&[0, 1, 2, 3, 5, 7, 8, 15], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
    static FILL: &[u8] = &[b' ', b'\t', b'\n', b'\r', b'0', b'9', b'a', b'f', b'F', b'g', b'z', b'Z', b'_', b'"', 0x80, 0xff, 0];
    let mut v = Vec::new();
    // homogeneous run of one filler, one arbitrary byte at every place
    let r = [maxlen + 1, FILL.len() as u64, aligns.len() as u64];
    v.push(space(
        "a run of every filler, every length and alignment, every byte value at every place",
        seq::prod(&r),
        move |i| format!("[length, filler, alignment] = {:?}", seq::digits(&r, i)),
        move |i, cx| {
            let g = seq::digits(&r, i);
            let (n, fill, al) = (g[0] as usize, FILL[g[1] as usize], aligns[g[2] as usize]);
            let mut buf = vec![fill; n + 64];
            let base = (16 - buf.as_ptr() as usize % 16) % 16 + al;
            cx.nontrivial(n >= 16);
            all(&buf[base..base + n], cx)?;
            for at in 0..n {
                for b in 0..=255u8 {
                    buf[base + at] = b;
                    let t = &buf[base..base + n];
                    if at % 16 == 0 || at % 16 >= 13 || at == n - 1 || b == 0 || b.is_ascii_punctuation() || n < 24 {
                        all(t, cx)?;
                    }
                    if b == fill || b == b'x' || b == 0xe9 || b == fill ^ 0x80 || b == fill ^ 0x20 {
                        needles(t, b, fill, cx)?;
                        needles(t, fill, b, cx)?;
                        needles(t, b'x', b, cx)?;
                    }
                }
                buf[base + at] = fill;
            }
            // two stoppers: the first one decides
            for a in 0..n {
                for b in a + 1..n.min(a + 34) {
                    buf[base + a] = b'x';
                    buf[base + b] = b'y';
                    needles(&buf[base..base + n], b'y', b'x', cx)?;
                    needles(&buf[base..base + n], b'x', b'y', cx)?;
                    buf[base + a] = fill;
                    buf[base + b] = fill;
                }
            }
            cx.state(&g);
            Ok(())
        },
    ));
    // all short texts
    static B: &[u8] = b" \t\n\r09azAZ_fg\"\xc3\xa9/";
    let d = tier.pick(5, 6);
    v.push(space(
        format!("every byte string of at most {d} interesting bytes in front of and behind a vector of whitespace, digits or letters"),
        seq::count_upto(B.len() as u64, d),
        move |i| format!("{:?}", seq::nth(B.len() as u64, d, i).iter().map(|k| B[*k] as char).collect::<String>()),
        move |i, cx| {
            let s: Vec<u8> = seq::nth(B.len() as u64, d, i).iter().map(|k| B[*k]).collect();
            cx.state(&s);
            all(&s, cx)?;
            for f in [b' ', b'7', b'q'] {
                for n in [14, 15, 16, 31] {
                    let mut t = vec![f; n];
                    t.extend(&s);
                    all(&t, cx)?;
                    needles(&t, s.first().copied().unwrap_or(b'"'), s.last().copied().unwrap_or(b'/'), cx)?;
                    let mut t = s.clone();
                    t.extend(vec![f; n]);
                    all(&t, cx)?;
                }
            }
            Ok(())
        },
    ));
    // very long runs
    let ns: &'static Vec<u64> = Box::leak(Box::new(seq::sizes(0, tier.pick(65536, 1 << 20)).into_iter().filter(|n| *n > 100).collect()));
    let r = [ns.len() as u64, FILL.len() as u64, 5];
    v.push(space(
        "runs around the powers of two, ended by another byte at the places around their end and middle",
        seq::prod(&r),
        move |i| format!("[length, filler, alignment] = {:?}", seq::digits(&r, i)),
        move |i, cx| {
            let g = seq::digits(&r, i);
            let (n, fill) = (ns[g[0] as usize] as usize, FILL[g[1] as usize]);
            let al = [0, 1, 7, 8, 15][g[2] as usize];
            let mut buf = vec![fill; n + 64];
            let base = (16 - buf.as_ptr() as usize % 16) % 16 + al;
            cx.nontrivial(true);
            cx.state(&g);
            for at in [n, n - 1, n - 2, n - 17, n / 2, n / 2 + 1] {
                for b in [b'x', b' ', b'7', 0xe9] {
                    let was = buf[base + at];
                    buf[base + at] = b;
                    let t = &buf[base..base + n];
                    // slices are big: say where, not what
                    let run = |f: &dyn Fn(u8) -> bool| t.iter().take_while(|b| f(**b)).count();
                    let find = |f: &dyn Fn(u8) -> bool| t.iter().position(|x| f(*x));
                    let who = || format!("{n} times {fill}, {b} at {at}");
                    cx.steps(8);
                    ensure_eq!(S::skip_ascii_whitespace(t), run(&|b| matches!(b, b' ' | b'\t' | b'\n' | b'\r')), "whitespace", "{}", who());
                    ensure_eq!(S::skip_ascii_digits(t), run(&|b| b.is_ascii_digit()), "digits", "{}", who());
                    ensure_eq!(S::skip_ascii_hexdigits(t), run(&|b| b.is_ascii_hexdigit()), "hexdigits", "{}", who());
                    ensure_eq!(S::skip_ascii_ident_continue(t), run(&|b| b.is_ascii_alphanumeric() || b == b'_'), "identifier", "{}", who());
                    ensure_eq!(S::find_byte(t, b), find(&|x| x == b), "find_byte", "{}", who());
                    ensure_eq!(S::skip_byte(t, fill), run(&|x| x == fill), "skip_byte", "{}", who());
                    ensure_eq!(S::skip_two_bytes(t, fill, b), run(&|x| x == fill || x == b), "skip_two", "{}", who());
                    ensure_eq!(S::skip_until(t, b), run(&|x| x != b), "skip_until", "{}", who());
                    ensure_eq!(S::find_first_of_4(t, 1, b, 2, 3), find(&|x| [1, b, 2, 3].contains(&x)), "find4", "{}", who());
                    buf[base + at] = was;
                }
            }
            cx.exec();
            Ok(())
        },
    ));
    v
}
