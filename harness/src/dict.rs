//! Dictionary for the generators: registered subtags and well-known tags, plus
//! the literals found in the source tree under test (an automatic dictionary, as
//! coverage-guided fuzzers use). It only ever steers generation; no verdict
//! depends on it.

use std::sync::LazyLock;

const SUBTAGS: &str = "
aa ab af am ar az be bg bn bs ca cs cy da de el en eo es et eu fa fi fr ga gd gl gsw gu ha he hi hr hu hy ia id
ie ig ii is it iw ja ji jv jw ka kk km kn ko ku ky la lb lo lt lv mk ml mn mo mr ms mt my nb ne nl nn no oc or pa
pl ps pt qaa qtz ro root ru rw sa sd se sh si sk sl so sq sr sv sw ta te tg th ti tk tl tn to tr ts tt ug uk und
ur uz vi wo xh yi yo yue zh zu zxx mul mis cmn hak nan wuu gan hsn cdo cjy cpx czh czo lzh mnp aao abh sgn ase bfi
art cel i x hi kok hbs sgg tlh kut pfe qtx mxc
latn cyrl arab hans hant hira kana hang deva grek hebr jpan kore thai zyyy zzzz qaaa qabx zinh zsym brai bopo hrkt
us gb uk de fr es br cn tw hk jp kr in ru ca au nz mx at ch be nl se no dk fi it pt pl cz za eg sa ae il tr aa zz
qm qz xa xz yu dd su cs bu tp zr 001 002 005 013 029 030 053 061 142 145 150 155 172 419 830 840 003 009 014 000 999
1606nict 1694acad 1901 1959acad 1994 1996 1997 abl1943 akuapem alalc97 aluku ao1990 arevela arevmda asante baku1926
balanka barla bauddha biscayan biske bohoric boont colb1945 cornu dajnko ekavsk emodeng fonipa fonupa fonxsamp hepburn
heploc hognorsk ijekavsk itihasa jauer jyutping kkcor kociewie kscor laukika lemosin lipaw luna1918 metelko monoton ndyuka
nedis newfound nulik osojs oxendict pahawh2 pamaka petr1708 pinyin polyton puter rigik rozaj rumgr scotland scouse simple
solba sotav spanglis surmiran sursilv sutsilv tarask tongyong tunumiir uccor ucrcor ulster unifon vaidika valencia vallader
vecdruka wadegile xsistemo posix saaho heploc 1acs 2nd2 0000 9999
co ca nu cu kf ks kk kb kc kn kh kr ka kv va cf em fw hc lb lw ms mu rg sd ss tz vt dx phonebk standard gregory buddhist
islamic islamc japanese chinese hebrew iso8601 arab latn thai eor posix upper lower true false yes no m0 s0 d0 i0 k0 t0 h0
hybrid und prprname ungegn bgn gb eng usnyc 4000 000 x0 fonipa
private private1 private2 phonebook whatever test wadegile example foo bar baz lojban default bnn oed tao tay tsu hakka
enochian klingon lux mingo navajo pwn min xiang gaulish guoyu jbo hak hsn cmn brit amer nyn bok hok
a b c d e f g h j k l m n o p q r s t u v w y z 0 1 2 3 4 5 6 7 8 9
";

const TAGS: &str = "
de fr ja i-enochian zh-Hant zh-Hans sr-Cyrl sr-Latn zh-cmn-Hans-CN cmn-Hans-CN zh-yue-HK yue-HK zh-Hans-CN
sr-Latn-RS sl-rozaj sl-rozaj-biske sl-nedis de-CH-1901 sl-IT-nedis hy-Latn-IT-arevela de-DE en-US es-419
de-CH-x-phonebk az-Arab-x-AZE-derbend x-whatever qaa-Qaaa-QM-x-southern de-Qaaa sr-Latn-QM sr-Qaaa-RS
en-US-u-islamcal zh-CN-a-myext-x-private en-a-myext-b-another ar-a-aaa-b-bbb-a-ccc de-419-DE a-DE
en-Latn-GB-boont-r-extended-sequence-x-private en-u-co-phonebk-t-fr-m0-ungegn-x-a zh-Hant-TW-u-nu-hanidec
sl-rozaj-biske-1994 sl-Latn-IT-rozaj-biske-1994-u-ca-gregory-x-a1 en-GB-oed en-GB-oxendict ca-ES-valencia
de-1996 de-Latn-DE-1996 be-tarask be-1959acad sgn-ase sgn-BE-FR ja-Latn-hepburn-heploc vi-Hani hi-t-en-h0-hybrid
und-Latn-t-und-cyrl mul und und-001 root zh-min zh-min-nan nan en-x-twain x-twain x-a i-klingon tlh art-lojban
jbo no-bok no-nyn nb-NO zh-gan-hak-hsn-Hant-TW qaa qtz-Qaaa-QM en-001 en-840 in-ID iw-IL ji mo-MD sh-YU
";

pub struct Dict {
    /// words of 1..=8 alphanumerics: all letters, all digits, any; by length
    pub alpha: Vec<Vec<Vec<u8>>>,
    pub digit: Vec<Vec<Vec<u8>>>,
    pub alnum: Vec<Vec<Vec<u8>>>,
    /// digit first, by length
    pub lead: Vec<Vec<Vec<u8>>>,
    /// longer literals, as they are
    pub whole: Vec<Vec<u8>>,
    /// small integers of interest, as lengths or counts
    pub ints: Vec<usize>,
}

fn rust_files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            rust_files(&p, out)
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p)
        }
    }
}

/// String literals and integers of a source text (lexed loosely).
fn literals(t: &str, strings: &mut Vec<Vec<u8>>, ints: &mut Vec<usize>) {
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                let mut j = i + 1;
                while j < b.len() && b[j] != b'"' && j - i < 200 {
                    j += if b[j] == b'\\' { 2 } else { 1 };
                }
                let end = j.min(b.len());
                if end > i + 1 && end - i < 100 {
                    strings.push(b[i + 1..end].to_vec());
                }
                i = j + 1;
            }
            b'0'..=b'9' => {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                let mut w: String = t[i..j].replace('_', "");
                for ty in ["usize", "isize", "u128", "u64", "u32", "u16", "u8", "i32", "i64"] {
                    if let Some(s) = w.strip_suffix(ty) {
                        w = s.to_string();
                        break;
                    }
                }
                let n = match w.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(h, 16).ok(),
                    None => w.parse::<u64>().ok(),
                };
                if let Some(n) = n {
                    if n <= 300_000 {
                        ints.push(n as usize);
                    }
                }
                i = j;
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

pub static DICT: LazyLock<Dict> = LazyLock::new(|| {
    let mut strings: Vec<Vec<u8>> = Vec::new();
    let mut ints = Vec::new();
    let src = concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src");
    let mut files = Vec::new();
    rust_files(std::path::Path::new(src), &mut files);
    for f in files {
        // the generated automata hold no strings, and their numbers are states
        if f.ends_with("grammar.rs") {
            continue;
        }
        if let Ok(t) = std::fs::read_to_string(&f) {
            // attributes such as #[automaton(...)] hold no values
            let t: String = t.lines().filter(|l| !l.trim_start().starts_with("#[")).collect::<Vec<_>>().join("\n");
            literals(&t, &mut strings, &mut ints);
        }
    }
    let mut d = Dict {
        alpha: vec![vec![]; 9],
        digit: vec![vec![]; 9],
        alnum: vec![vec![]; 9],
        lead: vec![vec![]; 9],
        whole: vec![],
        ints: vec![],
    };
    // a literal of the source is worth more than a registered subtag
    let mut words: Vec<(Vec<u8>, usize)> = Vec::new();
    for s in &strings {
        let clean: Vec<u8> = s.iter().map(|c| if c.is_ascii_alphanumeric() { *c } else { b' ' }).collect();
        for w in clean.split(|c| *c == b' ') {
            words.push((w.to_vec(), 4));
        }
        let tag = |c: &u8| c.is_ascii_alphanumeric() || *c == b'-';
        if s.len() <= 64 && s.iter().all(tag) && s.iter().any(|c| c.is_ascii_alphanumeric()) {
            d.whole.push(s.clone());
        }
    }
    words.sort();
    words.dedup();
    words.extend(SUBTAGS.split_whitespace().map(|w| (w.as_bytes().to_vec(), 1)));
    for (w, n) in words {
        let l = w.len();
        if !(1..=8).contains(&l) || !w.iter().all(u8::is_ascii_alphanumeric) {
            continue;
        }
        for _ in 0..n {
            d.alnum[l].push(w.clone());
            if w.iter().all(u8::is_ascii_alphabetic) {
                d.alpha[l].push(w.clone());
            }
            if w.iter().all(u8::is_ascii_digit) {
                d.digit[l].push(w.clone());
            }
            if w[0].is_ascii_digit() {
                d.lead[l].push(w.clone());
            }
        }
    }
    d.whole.extend(TAGS.split_whitespace().map(|t| t.as_bytes().to_vec()));
    d.whole.extend(crate::rfc::GRANDFATHERED.iter().map(|g| g.0.as_bytes().to_vec()));
    d.whole.sort();
    d.whole.dedup();
    ints.extend([255, 256, 65_535, 65_536]);
    ints.sort();
    ints.dedup();
    d.ints = ints;
    d
});
