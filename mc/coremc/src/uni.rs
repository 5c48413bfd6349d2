//! Every built-in Unicode class on every Unicode scalar value (C17).
use crate::real::Rl;
use pest3_core::typed::{template::{any, Char, CharRange}, unicode as u, Tracker, TypedNode};
use pest3_core::{Position, Stack};
use vref::evid::{Engine, Part};
use vref::par::each;

type Node = (&'static str, fn(&str, usize) -> (Option<usize>, Option<(usize, char)>));
fn run<'i, N: TypedNode<'i, Rl>>(s: &'i str, at: usize, get: fn(&N) -> char) -> (Option<usize>, Option<(usize, char)>) {
    let p = Position::new(s, at).unwrap();
    let c = N::check_with_partial(p, &mut Stack::new(), &mut Tracker::new(p)).map(|p| p.pos());
    let t = N::try_parse_with_partial(p, &mut Stack::new(), &mut Tracker::new(p)).map(|(p, n)| (p.pos(), get(&n)));
    (c, t)
}
macro_rules! nodes {
    ($($n:ident)*) => {
        const NODES: &[Node] = &[$((stringify!($n), |s, at| run::<u::$n>(s, at, |n| n.content))),*];
    };
}
#[rustfmt::skip]
nodes! {
    ALPHABETIC BIDI_CONTROL CASE_IGNORABLE CASED CHANGES_WHEN_CASEFOLDED CHANGES_WHEN_CASEMAPPED CHANGES_WHEN_LOWERCASED CHANGES_WHEN_TITLECASED
    CHANGES_WHEN_UPPERCASED DASH DEFAULT_IGNORABLE_CODE_POINT DEPRECATED DIACRITIC EMOJI EMOJI_COMPONENT EMOJI_MODIFIER
    EMOJI_MODIFIER_BASE EMOJI_PRESENTATION EXTENDED_PICTOGRAPHIC EXTENDER GRAPHEME_BASE GRAPHEME_EXTEND GRAPHEME_LINK HEX_DIGIT
    HYPHEN IDS_BINARY_OPERATOR IDS_TRINARY_OPERATOR ID_CONTINUE ID_START IDEOGRAPHIC JOIN_CONTROL LOGICAL_ORDER_EXCEPTION
    LOWERCASE MATH NONCHARACTER_CODE_POINT OTHER_ALPHABETIC OTHER_DEFAULT_IGNORABLE_CODE_POINT OTHER_GRAPHEME_EXTEND OTHER_ID_CONTINUE OTHER_ID_START
    OTHER_LOWERCASE OTHER_MATH OTHER_UPPERCASE PATTERN_SYNTAX PATTERN_WHITE_SPACE PREPENDED_CONCATENATION_MARK QUOTATION_MARK RADICAL
    REGIONAL_INDICATOR SENTENCE_TERMINAL SOFT_DOTTED TERMINAL_PUNCTUATION UNIFIED_IDEOGRAPH UPPERCASE VARIATION_SELECTOR WHITE_SPACE
    XID_CONTINUE XID_START CASED_LETTER CLOSE_PUNCTUATION CONNECTOR_PUNCTUATION CONTROL CURRENCY_SYMBOL DASH_PUNCTUATION
    DECIMAL_NUMBER ENCLOSING_MARK FINAL_PUNCTUATION FORMAT INITIAL_PUNCTUATION LETTER LETTER_NUMBER LINE_SEPARATOR
    LOWERCASE_LETTER MARK MATH_SYMBOL MODIFIER_LETTER MODIFIER_SYMBOL NONSPACING_MARK NUMBER OPEN_PUNCTUATION
    OTHER OTHER_LETTER OTHER_NUMBER OTHER_PUNCTUATION OTHER_SYMBOL PARAGRAPH_SEPARATOR PRIVATE_USE PUNCTUATION
    SEPARATOR SPACE_SEPARATOR SPACING_MARK SURROGATE SYMBOL TITLECASE_LETTER UNASSIGNED UPPERCASE_LETTER
    ADLAM AHOM ANATOLIAN_HIEROGLYPHS ARABIC ARMENIAN AVESTAN BALINESE BAMUM
    BASSA_VAH BATAK BENGALI BHAIKSUKI BOPOMOFO BRAHMI BRAILLE BUGINESE
    BUHID CANADIAN_ABORIGINAL CARIAN CAUCASIAN_ALBANIAN CHAKMA CHAM CHEROKEE CHORASMIAN
    COMMON COPTIC CUNEIFORM CYPRIOT CYPRO_MINOAN CYRILLIC DESERET DEVANAGARI
    DIVES_AKURU DOGRA DUPLOYAN EGYPTIAN_HIEROGLYPHS ELBASAN ELYMAIC ETHIOPIC GEORGIAN
    GLAGOLITIC GOTHIC GRANTHA GREEK GUJARATI GUNJALA_GONDI GURMUKHI HAN
    HANGUL HANIFI_ROHINGYA HANUNOO HATRAN HEBREW HIRAGANA IMPERIAL_ARAMAIC INHERITED
    INSCRIPTIONAL_PAHLAVI INSCRIPTIONAL_PARTHIAN JAVANESE KAITHI KANNADA KATAKANA KAWI KAYAH_LI
    KHAROSHTHI KHITAN_SMALL_SCRIPT KHMER KHOJKI KHUDAWADI LAO LATIN LEPCHA
    LIMBU LINEAR_A LINEAR_B LISU LYCIAN LYDIAN MAHAJANI MAKASAR
    MALAYALAM MANDAIC MANICHAEAN MARCHEN MASARAM_GONDI MEDEFAIDRIN MEETEI_MAYEK MENDE_KIKAKUI
    MEROITIC_CURSIVE MEROITIC_HIEROGLYPHS MIAO MODI MONGOLIAN MRO MULTANI MYANMAR
    NABATAEAN NAG_MUNDARI NANDINAGARI NEW_TAI_LUE NEWA NKO NUSHU NYIAKENG_PUACHUE_HMONG
    OGHAM OL_CHIKI OLD_HUNGARIAN OLD_ITALIC OLD_NORTH_ARABIAN OLD_PERMIC OLD_PERSIAN OLD_SOGDIAN
    OLD_SOUTH_ARABIAN OLD_TURKIC OLD_UYGHUR ORIYA OSAGE OSMANYA PAHAWH_HMONG PALMYRENE
    PAU_CIN_HAU PHAGS_PA PHOENICIAN PSALTER_PAHLAVI REJANG RUNIC SAMARITAN SAURASHTRA
    SHARADA SHAVIAN SIDDHAM SIGNWRITING SINHALA SOGDIAN SORA_SOMPENG SOYOMBO
    SUNDANESE SYLOTI_NAGRI SYRIAC TAGALOG TAGBANWA TAI_LE TAI_THAM TAI_VIET
    TAKRI TAMIL TANGSA TANGUT TELUGU THAANA THAI TIBETAN
    TIFINAGH TIRHUTA TOTO UGARITIC VAI VITHKUQI WANCHO WARANG_CITI
    YEZIDI YI ZANABAZAR_SQUARE
}

pub fn all(e: &mut Engine) {
    let chars: Vec<char> = (0..=0x10ffff).filter_map(char::from_u32).collect();
    let mut want: Vec<(&'static str, Box<dyn Fn(char) -> bool + Sync>)> = vec![];
    for n in pest2::unicode::unicode_property_names() {
        let table = pest2::unicode::by_name(n).unwrap();
        let set: Vec<bool> = (0..=0x10ffffu32).map(|c| char::from_u32(c).is_some_and(&table)).collect();
        want.push((n, Box::new(move |c| set[c as usize])));
    }
    // A property without a type of that name is left to the families.
    let both: Vec<(&Node, &(dyn Fn(char) -> bool + Sync))> =
        NODES.iter().filter_map(|n| want.iter().find(|w| w.0 == n.0).map(|w| (n, &*w.1))).collect();
    let both = &both;
    let parts = each(chars.len() + 1, 512, |i| format!("{:?}", chars.get(i)), |i, p| {
        // The character after another one and before itself; and the end of the input.
        let (s, c) = match chars.get(i) {
            Some(c) => (format!("é{c}{c}"), Some(*c)),
            None => ("é".to_string(), None),
        };
        let mut inside = 0;
        for (n, f) in both {
            let w = c.filter(|c| f(*c)).map(|c| (2 + c.len_utf8(), c));
            let r = (n.1)(&s, 2);
            p.traces += 2;
            p.transitions += 1;
            inside += w.is_some() as u64;
            if r != (w.map(|w| w.0), w) {
                p.viol(i as u64, || format!("{} on {c:?}", n.0), || format!("reference {w:?}, check and parse gave {r:?}"));
            }
        }
        let any = run::<any>(&s, 2, |n| n.content);
        let w = c.map(|c| (2 + c.len_utf8(), c));
        if any != (w.map(|w| w.0), w) {
            p.viol(i as u64, || format!("any on {c:?}"), || format!("reference {w:?}, check and parse gave {any:?}"));
        }
        p.states += both.len() as u64 + 1;
        p.nontrivial += inside;
        *p.outcomes.entry("member".into()).or_default() += inside;
        *p.outcomes.entry("not a member".into()).or_default() += both.len() as u64 - inside;
        if i % 0x8000 == 0x41 {
            p.sample(8, || format!("{c:?}: member of {inside} properties"));
        }
    });
    e.add(format!("{} Unicode properties and any x every Unicode scalar value and the end of input", both.len()), parts);
}

macro_rules! singles {
    ($s:expr, $r:expr; $($c:literal),*) => {$(
        $r.push((format!("Char<{:?}>", $c), $c..=$c, run::<Char<$c>>($s, 2, |_| '\0'), false));
    )*};
}
macro_rules! spread {
    ($s:expr, $r:expr; $($a:literal $b:literal),*) => {$(
        $r.push((format!("CharRange<{:?}, {:?}>", $a, $b), $a..=$b, run::<CharRange<$a, $b>>($s, 2, |n| n.content), true));
    )*};
}

/// Single characters and ranges on every Unicode scalar value.
pub fn chars(e: &mut Engine) {
    let chars: Vec<char> = (0..=0x10ffff).filter_map(char::from_u32).collect();
    let parts = each(chars.len() + 1, 512, |i| format!("{:?}", chars.get(i)), |i, p| {
        let (s, c) = match chars.get(i) {
            Some(c) => (format!("é{c}{c}"), Some(*c)),
            None => ("é".to_string(), None),
        };
        let s = &s[..];
        let mut r = vec![];
        singles!(s, r; '\0', 'a', '\x7f', '\u{80}', 'é', '\u{7ff}', '\u{800}', '日', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}');
        spread!(s, r; '\0' '\u{10ffff}', 'a' 'z', 'z' 'a', 'é' 'ÿ', '\x7f' '\u{80}', '\u{7ff}' '\u{800}', '\u{d7ff}' '\u{e000}', '\u{ffff}' '\u{10000}', '\u{10000}' '\u{10ffff}', '日' '日');
        p.states += r.len() as u64;
        for (n, range, got, content) in r {
            let w = c.filter(|c| range.contains(c)).map(|c| (2 + c.len_utf8(), if content { c } else { '\0' }));
            p.traces += 2;
            p.transitions += 1;
            p.nontrivial += w.is_some() as u64;
            p.outcome(if w.is_some() { "in" } else { "out" });
            if got != (w.map(|w| w.0), w) {
                p.viol(i as u64, || format!("{n} on {c:?}"), || format!("reference {w:?}, check and parse gave {got:?}"));
            }
        }
    });
    e.add("24 characters and ranges x every Unicode scalar value and the end of input", parts);
}
