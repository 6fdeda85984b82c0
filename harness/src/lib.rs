pub mod ast;
pub mod dump;
pub mod gen;
pub mod raw;
pub mod refer;
pub mod rt;
pub mod table;
pub mod tok;
pub mod vocab;

use gen::*;
use pddl::parsers::*;
use rt::*;

pub type Res<'a, T> = ParseResult<'a, T>;

/// Parses the whole of `text` with `f` and compares the canonical text of the
/// result with the expected one.
pub fn expect<T>(
    p: &P,
    what: &str,
    f: impl for<'a> Fn(&'a str) -> ParseResult<'a, T>,
    dump: impl Fn(&mut Vec<u8>, &T),
) {
    let input = p.render();
    text(&input);
    let src = as_str(&input);
    match f(src) {
        Err(_) if p.known.get() => known("metric-without-blank"),
        Err(_) => fail_at(what, "rejected a well-formed text"),
        Ok((rest, ast)) => {
            if !rest.fragment().is_empty() {
                fail_at(what, "left a part of a well-formed text unread");
            }
            let mut o = Vec::with_capacity(1024);
            dump(&mut o, &ast);
            if !same(&o, &p.o) {
                #[cfg(not(target_arch = "wasm32"))]
                {
                    println!("expected: {}", String::from_utf8_lossy(&p.o));
                    println!("got:      {}", String::from_utf8_lossy(&o));
                }
                fail_at(
                    what,
                    "gave a syntax tree that does not say what the text says",
                );
            }
            reach(1);
        }
    }
}
/// The executor only ever puts ASCII in a text (or writes the other characters
/// out in full), so it skips the validity check; the native replay makes it.
pub fn as_str(b: &[u8]) -> &str {
    #[cfg(target_arch = "wasm32")]
    return unsafe { std::str::from_utf8_unchecked(b) };
    #[cfg(not(target_arch = "wasm32"))]
    std::str::from_utf8(b).expect("HARNESS: not UTF-8")
}
pub fn fail_at(what: &str, m: &str) -> ! {
    let mut s = String::with_capacity(100);
    s.push_str(what);
    s.push(' ');
    s.push_str(m);
    fail(&s)
}

fn cfg(arg: u32) -> Cfg {
    // bits 0-3 depth (read by the caller), 4-7 names, 8-11 symbolic characters, 12-15 flags, 16-23 window start,
    // 24-27 window range, 28-29 layout, 14-15 mode (with full, 3 is 4), 30 front, 31 long names
    Cfg {
        count: arg >> 4 & 15,
        len: arg >> 8 & 15,
        stem: arg >> 12 & 1 == 1,
        full: arg >> 13 & 1 == 1,
        skip: arg >> 16 & 255,
        float: arg >> 24 & 15,
        layout: arg >> 28 & 3,
        front: arg >> 30 & 1 == 1,
        mode: (arg >> 14 & 3) + (arg >> 13 & arg >> 14 & arg >> 15 & 1),
        long: arg >> 31 & 1 == 1,
    }
}
fn depth(arg: u32) -> i32 {
    (arg & 15) as i32
}

macro_rules! entries {
    ($($n:ident => $f:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $n(arg: u32) { ($f)(arg) })*
        pub const ENTRIES: &[(&str, extern "C" fn(u32))] = &[$((stringify!($n), $n)),*];
    };
}

entries! {
    g_gd => |a| { let mut p = P::new(cfg(a)); gd(&mut p, depth(a)); expect(&p, "goal", |s| parse_gd(s), dump::gd) };
    g_pregd => |a| { let mut p = P::new(cfg(a)); pregds(&mut p, depth(a)); expect(&p, "precondition", |s| parse_pre_gd(s), dump::pregds) };
    g_effect => |a| { let mut p = P::new(cfg(a)); effects(&mut p, depth(a)); expect(&p, "effect", |s| parse_effect(s), dump::effects) };
    g_dagd => |a| { let mut p = P::new(cfg(a)); dagd(&mut p, depth(a)); expect(&p, "durative condition", |s| parse_da_gd(s), dump::dagd) };
    g_daeff => |a| { let mut p = P::new(cfg(a)); daeff(&mut p, depth(a)); expect(&p, "durative effect", |s| parse_da_effect(s), dump::daeff) };
    g_dur => |a| { let mut p = P::new(cfg(a)); dur(&mut p, depth(a)); expect(&p, "duration constraint", |s| parse_duration_constraint(s), dump::dur) };
    g_fexp => |a| { let mut p = P::new(cfg(a)); fexp(&mut p, depth(a)); expect(&p, "numeric expression", |s| parse_f_exp(s), dump::fexp) };
    g_fexpda => |a| { let mut p = P::new(cfg(a)); fexpda(&mut p, depth(a)); expect(&p, "durative numeric expression", |s| parse_f_exp_da(s), dump::fexpda) };
    g_metric => |a| { let mut p = P::new(cfg(a)); metricspec(&mut p, depth(a)); expect(&p, "metric", |s| parse_problem_metric_spec(s), dump::metricspec) };
    g_congd => |a| { let mut p = P::new(cfg(a)); congd(&mut p, depth(a)); expect(&p, "trajectory constraint", |s| parse_con_gd(s), dump::con) };
    g_prefcon => |a| { let mut p = P::new(cfg(a)); prefcons(&mut p, depth(a)); expect(&p, "preference constraint", |s| parse_pref_con_gd(s), dump::prefcons) };
    g_action => |a| { let mut p = P::new(cfg(a)); action(&mut p, depth(a)); expect(&p, "action", |s| parse_action_def(s), dump::action) };
    g_durative => |a| { let mut p = P::new(cfg(a)); durative(&mut p, depth(a)); expect(&p, "durative action", |s| parse_da_def(s), dump::durative) };
    g_derived => |a| { let mut p = P::new(cfg(a)); derived(&mut p, depth(a)); expect(&p, "derived predicate", |s| parse_derived_predicate(s), dump::derived) };
    g_tvars => |a| { let mut p = P::new(cfg(a)); typed_some(&mut p, depth(a), "object", |p| p.var()); expect(&p, "typed list of variables", |s| typed_list(|s| parse_variable(s))(Span::new(s)), dump::tvars) };
    g_tnames => |a| { let mut p = P::new(cfg(a)); typed_some(&mut p, depth(a), "object", |p| p.obj()); expect(&p, "typed list of names", |s| typed_list(|s| parse_name(s))(Span::new(s)), dump::tnames) };
    g_flist => |a| { let mut p = P::new(cfg(a)); let i = choose(FSH.len() as u8) as usize; flist(&mut p, FSH[i], depth(a)); expect(&p, "typed list of functions", |s| function_typed_list(|s| parse_atomic_function_skeleton(s))(Span::new(s)), dump::flist) };
    g_domain => |a| { let mut p = P::new(cfg(a)); let h = choose(8); domain(&mut p, depth(a), h, 255); expect(&p, "domain", |s| parse_domain(s), dump::domain) };
    g_domain_mask => |a| { let mut p = P::new(cfg(a)); let m = byte(0, 255); let m = pin(m); domain(&mut p, -1, 9, m as u16); expect(&p, "domain", |s| parse_domain(s), dump::domain) };
    g_domain_all => |a| { let mut p = P::new(cfg(a)); let h = choose(10); domain(&mut p, -1, h, 255); expect(&p, "domain", |s| parse_domain(s), dump::domain) };
    g_problem_all => |a| { let mut p = P::new(cfg(a)); let h = choose(10); problem(&mut p, -1, h, 255); expect(&p, "problem", |s| parse_problem(s), dump::problem) };
    g_problem => |a| { let mut p = P::new(cfg(a)); let h = choose(8); problem(&mut p, depth(a), h, 255); expect(&p, "problem", |s| parse_problem(s), dump::problem) };
    g_problem_mask => |a| { let mut p = P::new(cfg(a)); let m = byte(0, 255); let m = pin(m); problem(&mut p, -1, 9, m as u16); expect(&p, "problem", |s| parse_problem(s), dump::problem) };
    g_init => |a| { let mut p = P::new(cfg(a)); init_el(&mut p, depth(a)); expect(&p, "initial element", |s| parse_init_el(s), dump::init) };
    g_inits => |a| { let mut p = P::new(cfg(a)); inits(&mut p, depth(a)); expect(&p, "initial state", |s| parse_problem_init_def(s), dump::inits) };
    g_length => |a| { let mut p = P::new(cfg(a)); length(&mut p, depth(a)); expect(&p, "length", |s| parse_problem_length_spec(s), dump::length) };
    x_total => raw::total;
    x_agree => raw::agree;
    x_read => raw::read;
    x_equal => raw::equal;
    x_vary => raw::vary;
    x_layout => raw::layouts;
    x_build => raw::built;
    x_refer => raw::refer;
    t_token => tok::token;
    t_number => tok::number;
    t_names => tok::names;
    v_vocab => vocab::vocab;
    v_convert => vocab::convert;
    v_expand => vocab::expand;
    v_effective => vocab::effective;
}
