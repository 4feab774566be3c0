//! Documents of distinct words in any layout, most of them unusual, that strict decoding accepts.
use crate::obs::{self, O};
use crate::rng::Rng;
use serde_json::Value;

const LINES: &[&str] = &[
    "W: W", "W: W", "W:", "W:", "- W", "- W", "-", "-", "- W: W", "- W:", "W[1]: W", "W[2]: W,W", "W[1]:", "W[2]:", "W[1]{W}:", "W[2]{W}:",
    "W[1]{W,W}:", "W[1|]{W|W}:", "[1]: W", "[1]:", "[2]:", "[1]{W}:", "[2]{W,W}:", "- [1]: W", "- [1]:", "- [2]:", "- [1]{W}:", "- [1]{W,W}:", "- W[1]: W",
    "- W[1]:", "- W[2]:", "- W[1]{W}:", "- W[1]{W,W}:", "@,W,W", "@, W", "@|W|W", "@\tW", "@|", "@", "W,W", "W|W", "- W,W", "- W|W", "- W\tW", "W", "W", "\"W\"", "- \"W\"", "\"W\": W", "\"W,W\"",
    "- \"W\": \"W\"", "W[1] W", "W[2] W,W", "W[1]{W} W", "[1] W", "[2]{W,W} W", "- [1] W", "- W[1] W", "null", "null", "- null", "- @,W,W", "- @W", "- {0}:",
    "W : W", "W W: W", "W W", "W: [1]: W", "W: - W", "- - W", "- - W: W", "- -", "", "", "W.W: W", "W.W:", "W[1]: W:W", "W[x]: W", "W]: W", "W}: W", "W{W}: W", "[1|]: W", "[ 1 ]: W",
    "W[1]:W", "W:W", "W[1]", "W[1]{W}", "[1]", "[1]{W}", "W[1]: \"W\"", "W[1]: W W", "- [1]: W: W", "-W", "-W: W", "--", "- ", "-  W", "-  W: W", "W[1 ]: W", "W[1]{W }:", "W[1]{W}: W", "[1]{W}: W", "- [1]{W}: W",
];
pub fn session(r: &mut Rng) -> Vec<Value> {
    let mut last = None;
    for _ in 0..200 {
        let unit = *r.pick(&[2, 2, 2, 4, 1]);
        let (mut n, mut level, mut text) = (0, 0usize, vec![]);
        let few = r.pct(50);
        let some: Vec<&str> = (0..4).map(|_| *r.pick(LINES)).collect();
        for _ in 0..r.range(2, 6) {
            let mut l = " ".repeat(unit * level);
            for ch in (if few { *r.pick(&some) } else { *r.pick(LINES) }).chars() {
                if ch == 'W' {
                    n += 1;
                    l.push_str(&format!("w{n}"));
                } else {
                    l.push(ch);
                }
            }
            text.push(if l.trim().is_empty() { String::new() } else { l });
            level = match r.below(10) {
                0..=4 => level + 1,
                5..=7 => level,
                8 => level.saturating_sub(1),
                _ => r.below(level + 3),
            };
        }
        let o = O { strict: true, n: unit, ..O::std() };
        let (ob, v) = obs::dec("kept", &text.join("\n"), &o);
        let done = v.is_some() || ob["res"] == "panic";
        last = Some(ob);
        if done {
            break;
        }
    }
    vec![last.unwrap()]
}
