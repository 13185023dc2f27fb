//! The documented processing stage: an independent encoder and the decoder
//! described in the README.
pub const CAP: char = '\u{14}';
pub const CAPS: char = '\u{15}';
pub const EOW: char = '\u{16}';

/// Can the character be recovered from its lower case?
pub fn recoverable(c: char) -> bool {
    let l: Vec<char> = c.to_lowercase().collect();
    l.len() == 1 && l[0].to_uppercase().collect::<Vec<_>>() == vec![c]
}

fn upper(c: char) -> bool {
    c.is_uppercase()
}

fn encode_word(w: &[char], out: &mut String) {
    let first = w[0];
    if upper(first) && recoverable(first) && w[1..].iter().all(|c| c.is_lowercase()) {
        out.push(CAP);
        out.extend(first.to_lowercase());
        out.extend(w[1..].iter());
    } else if w.len() > 1 && w.iter().all(|&c| upper(c) && recoverable(c)) {
        out.push(CAPS);
        let s: String = w.iter().collect();
        out.push_str(&s.to_lowercase());
    } else {
        out.extend(w.iter());
    }
    out.push(EOW);
}

/// Reference encoder (written from the documentation: find the words, then
/// drop the single spaces between two words).
pub fn encode(text: &str) -> String {
    let chars: Vec<char> = text.chars().collect();
    let n = chars.len();
    let mut out = String::with_capacity(text.len() * 2);
    let mut i = 0;
    while i < n {
        if chars[i].is_alphabetic() {
            let mut j = i;
            while j < n && chars[j].is_alphabetic() {
                j += 1;
            }
            encode_word(&chars[i..j], &mut out);
            i = j;
        } else {
            let between = chars[i] == ' '
                && i > 0
                && chars[i - 1].is_alphabetic()
                && i + 1 < n
                && chars[i + 1].is_alphabetic();
            if !between {
                out.push(chars[i]);
            }
            i += 1;
        }
    }
    out
}

/// Decoder from the README.
pub fn decode(text: &str) -> String {
    let chars: Vec<char> = text.chars().collect();
    let mut out = String::with_capacity(text.len());
    #[derive(PartialEq)]
    enum M {
        None,
        Cap,
        Caps,
    }
    let mut mode = M::None;
    let mut prev_letter = false;
    for (i, &c) in chars.iter().enumerate() {
        match c {
            EOW => {
                // The next character, markers aside.
                let next = chars[i + 1..].iter().find(|&&c| c != CAP && c != CAPS);
                if prev_letter && next.map_or(false, |c| c.is_alphabetic()) {
                    out.push(' ');
                }
                mode = M::None;
                prev_letter = false;
            }
            CAP => mode = M::Cap,
            CAPS => mode = M::Caps,
            c => {
                match mode {
                    M::None => out.push(c),
                    M::Cap => {
                        out.extend(c.to_uppercase());
                        mode = M::None;
                    }
                    M::Caps => out.extend(c.to_uppercase()),
                }
                prev_letter = c.is_alphabetic();
            }
        }
    }
    out
}
