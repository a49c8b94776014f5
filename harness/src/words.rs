//! The vocabulary: significant words of LOLCODE, as the specification lists them (independent of
//! the tables of the crate under test), and their conversion into the crate's token types.

use lolcode_ast::lexer::{Keywords, NumberToken, TokenType, TokenValue};

macro_rules! keywords {
    ($($phrase:literal $name:ident,)*) => {
        /// Every keyword phrase
        pub const PHRASES: &[&str] = &[$($phrase),*];
        pub fn keyword(phrase: &str) -> Keywords {
            match phrase {
                $($phrase => Keywords::$name,)*
                _ => panic!("no keyword {phrase}"),
            }
        }
        pub fn all_keywords() -> Vec<(&'static str, Keywords)> {
            vec![$(($phrase, Keywords::$name)),*]
        }
    };
}

keywords! {
    "BTW" BTW, "HAS A" HAS_A, "OBTW" OBTW, "SRS" SRS, "TLDR" TLDR, "BUKKIT" BUKKIT, "HAI" HAI,
    "KTHXBYE" KTHXBYE, "I HAS A" I_HAS_A, "ITZ" ITZ, "NOOB" NOOB, "TROOF" TROOF, "FAIL" FAIL,
    "WIN" WIN, "NUMBR" NUMBR, "NUMBAR" NUMBAR, "YARN" YARN, "MKAY" MKAY, "AN" AN,
    "SUM OF" SUM_OF, "DIFF OF" DIFF_OF, "PRODUKT OF" PRODUKT_OF, "QUOSHUNT OF" QUOSHUNT_OF,
    "MOD OF" MOD_OF, "BIGGR OF" BIGGR_OF, "SMALLR OF" SMALLR_OF, "BOTH SAEM" BOTH_SAEM,
    "BOTH OF" BOTH_OF, "EITHER OF" EITHER_OF, "WON OF" WON_OF, "NOT" NOT, "UPPIN" UPPIN,
    "NERFIN" NERFIN, "ALL OF" ALL_OF, "ANY OF" ANY_OF, "DIFFRINT" DIFFRINT, "SMOOSH" SMOOSH,
    "MAEK" MAEK, "IS NOW" IS_NOW, "VISIBLE" VISIBLE, "GIMMEH" GIMMEH, "O RLY" O_RLY,
    "YA RLY" YA_RLY, "NO WAI" NO_WAI, "OIC" OIC, "MEBBE" MEBBE, "WTF" WTF, "OMGWTF" OMGWTF,
    "OMG" OMG, "GTFO" GTFO, "IM IN YR" IM_IN_YR, "YR" YR, "TIL" TIL, "WILE" WILE,
    "IM OUTTA YR" IM_OUTTA_YR, "HOW IZ I" HOW_IZ_I, "IF U SAY SO" IF_U_SAY_SO,
    "FOUND YR" FOUND_YR, "I IZ" I_IZ, "R" R, "A" A,
}

/// Phrases that the tokenizer never turns into a keyword token: comment markers and literals
pub const NOT_KEYWORD_TOKENS: &[&str] = &["BTW", "OBTW", "NOOB", "FAIL", "WIN"];

/// (keyword, operator in the tree)
pub const BINARY: &[(&str, &str)] = &[
    ("SUM OF", "SumOf"),
    ("DIFF OF", "DiffOf"),
    ("PRODUKT OF", "ProduktOf"),
    ("QUOSHUNT OF", "QuoshuntOf"),
    ("MOD OF", "ModOf"),
    ("BIGGR OF", "BiggrOf"),
    ("SMALLR OF", "SmallrOf"),
    ("BOTH SAEM", "BothSaem"),
    ("BOTH OF", "BothOf"),
    ("EITHER OF", "EitherOf"),
    ("WON OF", "WonOf"),
    ("DIFFRINT", "Diffrint"),
];
pub const NARY: &[(&str, &str)] = &[("ALL OF", "AllOf"), ("ANY OF", "AnyOf"), ("SMOOSH", "Smoosh")];
pub const TYPES: &[(&str, &str)] = &[
    ("NUMBR", "Numbr"),
    ("NUMBAR", "Numbar"),
    ("YARN", "Yarn"),
    ("TROOF", "Troof"),
    ("BUKKIT", "Bukkit"),
];

/// First words of phrases of several words: a name like that must not be followed by a single
/// space and the rest of the phrase, or it is not a name any more
pub fn starts_phrase(name: &str) -> bool {
    PHRASES.iter().any(|p| p.split(' ').count() > 1 && p.split(' ').next() == Some(name))
}

/// A significant word of a statement
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Kw(&'static str),
    Id(String),
    Int(String, i32),
    Float(String, f32),
    Yarn(String),
    Bool(bool),
    Noob,
    /// A NOOB keyword token, only in sequences made by hand
    NoobKw,
    Slot,
    Bang,
    Quest,
    Sym(String),
}

impl W {
    pub fn text(&self) -> String {
        match self {
            W::Kw(p) => p.to_string(),
            W::Id(n) => n.clone(),
            W::Int(t, _) | W::Float(t, _) => t.clone(),
            W::Yarn(c) => format!("\"{c}\""),
            W::Bool(true) => "WIN".into(),
            W::Bool(false) => "FAIL".into(),
            W::Noob | W::NoobKw => "NOOB".into(),
            W::Slot => "'Z".into(),
            W::Bang => "!".into(),
            W::Quest => "?".into(),
            W::Sym(s) => s.clone(),
        }
    }

    /// The token type the tokenizer must produce for this word
    pub fn token_type(&self) -> TokenType {
        match self {
            W::Kw(p) => TokenType::Keyword(keyword(p)),
            W::Id(n) => TokenType::Identifier(n.clone()),
            W::Int(_, v) => TokenType::Value(TokenValue::Number(NumberToken::Int(*v))),
            W::Float(_, v) => TokenType::Value(TokenValue::Number(NumberToken::Float(*v))),
            W::Yarn(c) => TokenType::Value(TokenValue::String(c.clone())),
            W::Bool(b) => TokenType::Value(TokenValue::Boolean(*b)),
            W::Noob => TokenType::Value(TokenValue::NOOB),
            W::NoobKw => TokenType::Keyword(Keywords::NOOB),
            W::Slot => TokenType::BukkitSlotAccess,
            W::Bang => TokenType::ExclamationMark,
            W::Quest => TokenType::QuestionMark,
            W::Sym(s) => TokenType::Symbol(s.clone()),
        }
    }

    pub fn is_kw(&self, phrase: &str) -> bool {
        matches!(self, W::Kw(p) if *p == phrase)
    }

    pub fn is_quest(&self) -> bool {
        matches!(self, W::Quest) || matches!(self, W::Sym(s) if s == "?")
    }

    pub fn is_name_start(&self) -> bool {
        matches!(self, W::Id(_)) || self.is_kw("SRS")
    }
}

pub fn is_trivia(t: &TokenType) -> bool {
    matches!(
        t,
        TokenType::Comma
            | TokenType::Ellipsis
            | TokenType::CommentSingleLine(_)
            | TokenType::CommentMultiLine(_)
    )
}

pub fn is_word_char(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric()
}

/// Whether the text is one name, for certain
pub fn is_name(s: &str) -> bool {
    !s.is_empty()
        && !s.starts_with(|c: char| c.is_ascii_digit())
        && s.chars().all(is_word_char)
        && !PHRASES.contains(&s)
        && !s.starts_with("BTW")
        && !s.starts_with("OBTW")
}

pub fn type_debug(t: &TokenType) -> String {
    format!("{t:?}")
}
