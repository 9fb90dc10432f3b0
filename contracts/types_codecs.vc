# colour, obfuscation, string names: C15
@module types::color
@top
use crate::vx::{encode_utf8, is_ascii};
use crate::vx::fmt::hex_char;
pub open spec fn hex_val(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 }
    else { -1 }
}
pub open spec fn byte_val(c: int) -> int {
    if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else if 65 <= c <= 70 { c - 55 } else { -1 }
}
impl crate::vx::fmt::VDisplay for ColorError { uninterp spec fn disp(&self) -> Seq<char>; }
impl crate::vx::VFrom<ColorError> for ColorError {
    open spec fn vfrom(t: ColorError) -> ColorError { t }
    fn vx_from(t: ColorError) -> (r: ColorError) { t }
}
/// '#' and six hexadecimal digits, in either case, and nothing else.
pub open spec fn is_color(s: Seq<char>) -> bool {
    s.len() == 7 && s[0] == '#' && forall|i: int| 1 <= i < 7 ==> hex_val(#[trigger] s[i]) >= 0
}
pub open spec fn color_of(s: Seq<char>) -> Color {
    Color {
        red: (hex_val(s[1]) * 16 + hex_val(s[2])) as u8,
        green: (hex_val(s[3]) * 16 + hex_val(s[4])) as u8,
        blue: (hex_val(s[5]) * 16 + hex_val(s[6])) as u8,
    }
}
pub open spec fn color_text(c: Color) -> Seq<char> {
    seq!['#', hex_char(c.red as int / 16), hex_char(c.red as int % 16), hex_char(c.green as int / 16), hex_char(c.green as int % 16),
        hex_char(c.blue as int / 16), hex_char(c.blue as int % 16)]
}
pub proof fn lemma_hex_char(n: int) requires 0 <= n < 16 ensures hex_val(hex_char(n)) == n, hex_char(n) as int <= 127 {}
/// C15: what is written for a colour is read back as that colour.
pub proof fn color_codec_round_trip(c: Color)
    ensures is_color(color_text(c)), color_of(color_text(c)) == c
{
    let t = color_text(c);
    lemma_hex_char(c.red as int / 16); lemma_hex_char(c.red as int % 16);
    lemma_hex_char(c.green as int / 16); lemma_hex_char(c.green as int % 16);
    lemma_hex_char(c.blue as int / 16); lemma_hex_char(c.blue as int % 16);
    assert forall|i: int| 1 <= i < 7 implies hex_val(#[trigger] t[i]) >= 0 by {
        assert(i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6);
    }
}
pub proof fn color_codec_is_injective(a: Color, b: Color)
    ensures color_text(a) == color_text(b) ==> a == b
{ color_codec_round_trip(a); color_codec_round_trip(b); }
/// The digits of the text are the digits of its bytes.
pub proof fn lemma_digits(s: Seq<char>)
    requires s.len() == 7, s[0] == '#'
    ensures
        encode_utf8(s).len() >= 7,
        is_color(s) <==> (forall|i: int| 1 <= i < 7 ==> byte_val(#[trigger] encode_utf8(s)[i] as int) >= 0),
        is_color(s) ==> forall|i: int| 1 <= i < 7 ==> byte_val(#[trigger] encode_utf8(s)[i] as int) == hex_val(s[i]),
{
    let b = encode_utf8(s);
    crate::vx::lemma_utf8_len(s);
    if is_color(s) {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as int <= 127 by { if i > 0 { assert(hex_val(s[i]) >= 0); } }
        crate::vx::lemma_ascii_utf8(s);
        assert forall|i: int| 1 <= i < 7 implies byte_val(#[trigger] b[i] as int) == hex_val(s[i]) by { assert(b[i] as int == s[i] as int); }
        assert forall|i: int| 1 <= i < 7 implies byte_val(#[trigger] b[i] as int) >= 0 by { assert(hex_val(s[i]) >= 0); }
    }
    if forall|i: int| 1 <= i < 7 ==> byte_val(#[trigger] b[i] as int) >= 0 {
        broadcast use vstd::utf8::group_utf8_lib;
        assert(b == vstd::utf8::encode_scalar(s[0] as u32) + encode_utf8(s.drop_first()));
        crate::vx::lemma_scalar(s[0]);
        assert forall|i: int| 0 <= i < 7 implies (#[trigger] b[i]) < 128 by { if i > 0 { assert(byte_val(b[i] as int) >= 0); } }
        crate::vx::lemma_utf8_ascii(s, 7);
        assert forall|i: int| 1 <= i < 7 implies hex_val(#[trigger] s[i]) >= 0 by { assert(byte_val(b[i] as int) >= 0); }
    }
}
@omit ColorError::msg : text of an error message
@fn Color::from_hex_string
@props C15 C03
@ret r
@spec
    ensures
        r is Ok <==> is_color(hex@),
        r matches Ok(c) ==> c == color_of(hex@),
@start
        proof {
            reveal_strlit("#");
            if hex@.len() == 7 && hex@[0] == '#' { lemma_digits(hex@); }
            assert("#"@.len() == 1 && "#"@[0] == '#');
            assert(hex@.len() >= 1 ==> (hex@.take(1) == "#"@ <==> hex@[0] == '#')) by {
                if hex@.len() >= 1 { assert(hex@.take(1)[0] == hex@[0]); if hex@[0] == '#' { assert(hex@.take(1) =~= "#"@); } }
            }
            if is_color(hex@) {
                assert(hex_val(hex@[1]) >= 0 && hex_val(hex@[2]) >= 0 && hex_val(hex@[3]) >= 0 && hex_val(hex@[4]) >= 0 && hex_val(hex@[5]) >= 0 && hex_val(hex@[6]) >= 0);
            }
        }
@fn Color::to_hex_string
@props C15
@ret r
@spec
    ensures r@ == color_text(*self),
@start
        proof { reveal_strlit("#"); assert("#"@ =~= seq!['#']); }
@fn from_hex_digits
@props C15 C03
@ret r
@spec
    requires start + 1 < encode_utf8(hex_str@).len(), start < 100,
    ensures
        r is Some <==> byte_val(encode_utf8(hex_str@)[start as int] as int) >= 0 && byte_val(encode_utf8(hex_str@)[start + 1] as int) >= 0,
        r matches Some(v) ==> v == byte_val(encode_utf8(hex_str@)[start as int] as int) * 16 + byte_val(encode_utf8(hex_str@)[start + 1] as int),
@start
    broadcast use vstd::string::group_string_axioms;
@fn hex_digit
@props C15 C03
@ret r
@spec
    ensures
        r is Some <==> byte_val(byte as int) >= 0,
        r matches Some(v) ==> v == byte_val(byte as int) && v < 16,
@fn from_hex_string_blue
@props C15 C03
@ret r
@spec
    requires encode_utf8(hex_str@).len() >= 7,
    ensures
        r is Ok <==> byte_val(encode_utf8(hex_str@)[5] as int) >= 0 && byte_val(encode_utf8(hex_str@)[6] as int) >= 0,
        r matches Ok(v) ==> v == byte_val(encode_utf8(hex_str@)[5] as int) * 16 + byte_val(encode_utf8(hex_str@)[6] as int),
@fn from_hex_string_green
@props C15 C03
@ret r
@spec
    requires encode_utf8(hex_str@).len() >= 7,
    ensures
        r is Ok <==> byte_val(encode_utf8(hex_str@)[3] as int) >= 0 && byte_val(encode_utf8(hex_str@)[4] as int) >= 0,
        r matches Ok(v) ==> v == byte_val(encode_utf8(hex_str@)[3] as int) * 16 + byte_val(encode_utf8(hex_str@)[4] as int),
@fn from_hex_string_red
@props C15 C03
@ret r
@spec
    requires encode_utf8(hex_str@).len() >= 7,
    ensures
        r is Ok <==> byte_val(encode_utf8(hex_str@)[1] as int) >= 0 && byte_val(encode_utf8(hex_str@)[2] as int) >= 0,
        r matches Ok(v) ==> v == byte_val(encode_utf8(hex_str@)[1] as int) * 16 + byte_val(encode_utf8(hex_str@)[2] as int),

@module types::obfuscation
@top
impl crate::vx::fmt::VDisplay for ObfuscationError { uninterp spec fn disp(&self) -> Seq<char>; }
pub open spec fn obf_num(o: Obfuscation) -> int { match o { Obfuscation::None => 0, Obfuscation::UseClipboard => 1 } }
@omit ObfuscationError::msg : text of an error message
@fn Obfuscation::from_i32
@props C15 C03
@ret r
@spec
    ensures
        r is Ok <==> 0 <= id <= 1,
        r matches Ok(v) ==> obf_num(v) == id,
@fn Obfuscation::to_i32
@props C15
@ret r
@spec
    ensures r as int == obf_num(self),
@fn Default for Obfuscation::default
@props C18
@ret r
@spec
    ensures r is None,

@module types::string_key
@type StringKey
@derive PartialEq Eq Hash Clone
@needs Eq Hash PartialEq
@top
use crate::vx::{lower, is_ascii, lower_char};
pub open spec fn key_text(k: StringKey) -> Seq<char> {
    match k {
        StringKey::Notes => "Notes"@,
        StringKey::Other(s) => s@,
        StringKey::Password => "Password"@,
        StringKey::Title => "Title"@,
        StringKey::Url => "URL"@,
        StringKey::Username => "UserName"@,
    }
}
/// The name a text stands for; every text that is not a standard name stands for itself.
pub open spec fn is_key_of(k: StringKey, s: Seq<char>) -> bool {
    let l = lower(s);
    if l == "notes"@ { k is Notes }
    else if l == "password"@ { k is Password }
    else if l == "title"@ { k is Title }
    else if l == "url"@ { k is Url }
    else if l == "username"@ { k is Username }
    else { k matches StringKey::Other(t) && t@ == s }
}
/// The name a text stands for.
pub open spec fn key_for(s: Seq<char>) -> StringKey { choose|k: StringKey| is_key_of(k, s) }
pub broadcast proof fn lemma_key_for(k: StringKey, s: Seq<char>) requires #[trigger] is_key_of(k, s) ensures key_for(s) == k {
    broadcast use crate::vx::lemmas::ax_string_ext;
    assert(is_key_of(key_for(s), s));
}
pub open spec fn is_standard(s: Seq<char>) -> bool {
    lower(s) == "notes"@ || lower(s) == "password"@ || lower(s) == "title"@ || lower(s) == "url"@ || lower(s) == "username"@
}
pub open spec fn lowered(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_char(c)) }
pub proof fn lemma_standard_names()
    ensures
        lower("Notes"@) == "notes"@, lower("Password"@) == "password"@, lower("Title"@) == "title"@,
        lower("URL"@) == "url"@, lower("UserName"@) == "username"@,
        "notes"@ != "password"@, "notes"@ != "title"@, "notes"@ != "url"@, "notes"@ != "username"@,
        "password"@ != "title"@, "password"@ != "url"@, "password"@ != "username"@,
        "title"@ != "url"@, "title"@ != "username"@, "url"@ != "username"@,
{
    reveal_strlit("Notes"); reveal_strlit("Password"); reveal_strlit("Title"); reveal_strlit("URL"); reveal_strlit("UserName");
    reveal_strlit("notes"); reveal_strlit("password"); reveal_strlit("title"); reveal_strlit("url"); reveal_strlit("username");
    crate::vx::ax_lower_ascii("Notes"@); crate::vx::ax_lower_ascii("Password"@); crate::vx::ax_lower_ascii("Title"@);
    crate::vx::ax_lower_ascii("URL"@); crate::vx::ax_lower_ascii("UserName"@);
    assert(lower("Notes"@) =~= "notes"@); assert(lower("Password"@) =~= "password"@); assert(lower("Title"@) =~= "title"@);
    assert(lower("URL"@) =~= "url"@); assert(lower("UserName"@) =~= "username"@);
    assert("notes"@[0] == 'n'); assert("password"@[0] == 'p'); assert("title"@[0] == 't'); assert("url"@[1] == 'r'); assert("username"@[1] == 's');
    assert("url"@.len() == 3); assert("username"@.len() == 8);
}
/// C15: every name but a case variant of a standard one is read back as it was.
pub proof fn string_key_round_trip(k: StringKey, back: StringKey)
    requires is_key_of(back, key_text(k)), k matches StringKey::Other(t) ==> !is_standard(t@)
    ensures back == k
{
    lemma_standard_names();
    broadcast use crate::vx::lemmas::ax_string_ext;
}
/// C15: distinct names that can be stored have distinct stored forms.
pub proof fn string_key_is_injective(a: StringKey, b: StringKey)
    requires a matches StringKey::Other(t) ==> !is_standard(t@), b matches StringKey::Other(t) ==> !is_standard(t@)
    ensures key_text(a) == key_text(b) ==> a == b
{
    lemma_standard_names();
    broadcast use crate::vx::lemmas::ax_string_ext;
}
/// C15: the standard names are recognised in any letter case.
pub proof fn standard_names_in_any_case(k: StringKey, s: Seq<char>)
    requires is_key_of(k, s), is_ascii(s),
    ensures
        lowered(s) == "notes"@ ==> k is Notes,
        lowered(s) == "password"@ ==> k is Password,
        lowered(s) == "title"@ ==> k is Title,
        lowered(s) == "url"@ ==> k is Url,
        lowered(s) == "username"@ ==> k is Username,
{
    lemma_standard_names();
    crate::vx::ax_lower_ascii(s);
}
@fn StringKey::from_string
@props C15 C03
@ret r
@spec
    ensures is_key_of(r, string@),
@start
        broadcast use crate::vx::lemmas::ax_str_ext;
        proof { lemma_standard_names(); }
@fn StringKey::to_string
@props C15
@ret r
@spec
    ensures r@ == key_text(*self),
