# errors, identifiers, times, string values, entries
@module types::error
@impl From<io::Error> for Error
    open spec fn vfrom(t: io::Error) -> Error { Error::Io(t) }
@fn From<io::Error> for Error::from
@props C04 C05
@impl From<xmlreader::Error> for Error
    open spec fn vfrom(t: xmlreader::Error) -> Error { Error::XmlError(crate::vx::string_of(crate::vx::fmt::VDisplay::disp(&t))) }
@fn From<xmlreader::Error> for Error::from
@props C03
@start
        proof { crate::vx::ax_string_of(crate::vx::fmt::VDisplay::disp(&err)); }
        broadcast use crate::vx::lemmas::ax_string_ext;
@impl From<xmlwriter::Error> for Error
    open spec fn vfrom(t: xmlwriter::Error) -> Error { Error::XmlError(crate::vx::string_of(crate::vx::fmt::VDisplay::disp(&t))) }
@fn From<xmlwriter::Error> for Error::from
@props C05
@start
        proof { crate::vx::ax_string_of(crate::vx::fmt::VDisplay::disp(&err)); }
        broadcast use crate::vx::lemmas::ax_string_ext;
@impl From<SymmetricCipherError> for Error
    open spec fn vfrom(t: SymmetricCipherError) -> Error { Error::CryptoError(t) }
@fn From<SymmetricCipherError> for Error::from
@props C03

@module types::entry_uuid
@type EntryUuid
@derive PartialEq Eq Clone Copy Structural
@needs PartialEq Eq Clone Copy
@fn EntryUuid::new_random
@props C03
@fn EntryUuid::nil
@props C13 C18
@ret r
@spec
    ensures r == EntryUuid(crate::vx::uuid::nil_uuid()),
@fn Default for EntryUuid::default
@props C18
@ret r
@spec
    ensures r == EntryUuid(crate::vx::uuid::nil_uuid()),

@module types::group_uuid
@type GroupUuid
@derive PartialEq Eq Clone Copy Structural
@needs PartialEq Eq Clone Copy
@fn GroupUuid::new_random
@props C03
@fn GroupUuid::nil
@props C13 C18
@ret r
@spec
    ensures r == GroupUuid(crate::vx::uuid::nil_uuid()),
@fn Default for GroupUuid::default
@props C18
@ret r
@spec
    ensures r == GroupUuid(crate::vx::uuid::nil_uuid()),

@module types::custom_icon_uuid
@type CustomIconUuid
@derive PartialEq Eq Clone Copy Structural Hash
@needs PartialEq Eq Clone Copy
@fn CustomIconUuid::new_random
@props C03
@fn CustomIconUuid::nil
@props C13 C18
@ret r
@spec
    ensures r == CustomIconUuid(crate::vx::uuid::nil_uuid()),
@fn Default for CustomIconUuid::default
@props C18
@ret r
@spec
    ensures r == CustomIconUuid(crate::vx::uuid::nil_uuid()),

@module types::string_value
@top
use crate::vx::{encode_utf8, decode_utf8, valid_utf8};
/// The text a string value holds.
pub open spec fn str_of(v: StringValue) -> Option<Seq<char>> {
    match v {
        StringValue::Plain(s) => Some(s@),
        StringValue::Protected(x) => if valid_utf8(x@) { Some(decode_utf8(x@)) } else { None },
    }
}
@fn StringValue::new
@props C16
@ret r
@spec
    ensures
        str_of(r) == Some(value.vinto()),
        r is Protected <==> protected,
        r matches StringValue::Protected(x) ==> x@ == encode_utf8(value.vinto()),
@start
        broadcast use crate::vx::ax_text_of;
        broadcast use vstd::utf8::group_utf8_lib;

@module types::times
@top
use crate::types::{Entry, Group};
/// Everything about an entry or group but its times.
pub ghost enum Bare { E(Entry), G(Group) }
@trait Times
    spec fn t_creation_time(&self) -> DateTime<Utc>;
    spec fn t_expires(&self) -> bool;
    spec fn t_expiry_time(&self) -> DateTime<Utc>;
    spec fn t_last_accessed(&self) -> DateTime<Utc>;
    spec fn t_last_modified(&self) -> DateTime<Utc>;
    spec fn t_location_changed(&self) -> DateTime<Utc>;
    spec fn t_usage_count(&self) -> i32;
    spec fn t_rest(&self) -> Bare;
@fn Times::creation_time
@props C16
@ret r
@spec
    ensures r == self.t_creation_time(),
@fn Times::expires
@props C16
@ret r
@spec
    ensures r == self.t_expires(),
@fn Times::expiry_time
@props C16
@ret r
@spec
    ensures r == self.t_expiry_time(),
@fn Times::last_accessed
@props C16
@ret r
@spec
    ensures r == self.t_last_accessed(),
@fn Times::last_modified
@props C16
@ret r
@spec
    ensures r == self.t_last_modified(),
@fn Times::location_changed
@props C16
@ret r
@spec
    ensures r == self.t_location_changed(),
@fn Times::usage_count
@props C16
@ret r
@spec
    ensures r == self.t_usage_count(),
@fn Times::set_creation_time
@props C16
@spec
    ensures
        final(self).t_rest() == old(self).t_rest(),
        final(self).t_creation_time() == vx_p1,
        final(self).t_expires() == old(self).t_expires(),
        final(self).t_expiry_time() == old(self).t_expiry_time(),
        final(self).t_last_accessed() == old(self).t_last_accessed(),
        final(self).t_last_modified() == old(self).t_last_modified(),
        final(self).t_location_changed() == old(self).t_location_changed(),
        final(self).t_usage_count() == old(self).t_usage_count(),
@fn Times::set_expires
@props C16
@spec
    ensures
        final(self).t_rest() == old(self).t_rest(),
        final(self).t_expires() == vx_p1,
        final(self).t_creation_time() == old(self).t_creation_time(),
        final(self).t_expiry_time() == old(self).t_expiry_time(),
        final(self).t_last_accessed() == old(self).t_last_accessed(),
        final(self).t_last_modified() == old(self).t_last_modified(),
        final(self).t_location_changed() == old(self).t_location_changed(),
        final(self).t_usage_count() == old(self).t_usage_count(),
@fn Times::set_expiry_time
@props C16
@spec
    ensures
        final(self).t_rest() == old(self).t_rest(),
        final(self).t_expiry_time() == vx_p1,
        final(self).t_creation_time() == old(self).t_creation_time(),
        final(self).t_expires() == old(self).t_expires(),
        final(self).t_last_accessed() == old(self).t_last_accessed(),
        final(self).t_last_modified() == old(self).t_last_modified(),
        final(self).t_location_changed() == old(self).t_location_changed(),
        final(self).t_usage_count() == old(self).t_usage_count(),
@fn Times::set_last_accessed
@props C16
@spec
    ensures
        final(self).t_rest() == old(self).t_rest(),
        final(self).t_last_accessed() == vx_p1,
        final(self).t_creation_time() == old(self).t_creation_time(),
        final(self).t_expires() == old(self).t_expires(),
        final(self).t_expiry_time() == old(self).t_expiry_time(),
        final(self).t_last_modified() == old(self).t_last_modified(),
        final(self).t_location_changed() == old(self).t_location_changed(),
        final(self).t_usage_count() == old(self).t_usage_count(),
@fn Times::set_last_modified
@props C16
@spec
    ensures
        final(self).t_rest() == old(self).t_rest(),
        final(self).t_last_modified() == vx_p1,
        final(self).t_creation_time() == old(self).t_creation_time(),
        final(self).t_expires() == old(self).t_expires(),
        final(self).t_expiry_time() == old(self).t_expiry_time(),
        final(self).t_last_accessed() == old(self).t_last_accessed(),
        final(self).t_location_changed() == old(self).t_location_changed(),
        final(self).t_usage_count() == old(self).t_usage_count(),
@fn Times::set_location_changed
@props C16
@spec
    ensures
        final(self).t_rest() == old(self).t_rest(),
        final(self).t_location_changed() == vx_p1,
        final(self).t_creation_time() == old(self).t_creation_time(),
        final(self).t_expires() == old(self).t_expires(),
        final(self).t_expiry_time() == old(self).t_expiry_time(),
        final(self).t_last_accessed() == old(self).t_last_accessed(),
        final(self).t_last_modified() == old(self).t_last_modified(),
        final(self).t_usage_count() == old(self).t_usage_count(),
@fn Times::set_usage_count
@props C16
@spec
    ensures
        final(self).t_rest() == old(self).t_rest(),
        final(self).t_usage_count() == vx_p1,
        final(self).t_creation_time() == old(self).t_creation_time(),
        final(self).t_expires() == old(self).t_expires(),
        final(self).t_expiry_time() == old(self).t_expiry_time(),
        final(self).t_last_accessed() == old(self).t_last_accessed(),
        final(self).t_last_modified() == old(self).t_last_modified(),
        final(self).t_location_changed() == old(self).t_location_changed(),

@module types::binary_key
@type BinaryKey
@derive PartialEq Eq Hash Clone
@needs Eq Hash PartialEq
@module types::binary_id
@type BinaryId
@derive PartialEq Eq Hash Clone
@needs Eq Hash PartialEq

@module types::entry
@top
use super::string_value::str_of;
use crate::types::times::Bare;
use crate::vx::chrono::the_time;
use crate::vx::keys::group_keys;
/// What reading a string of an entry gives.
pub open spec fn reads(e: Entry, k: StringKey) -> Option<Seq<char>> {
    if e.strings@.contains_key(k) { str_of(e.strings@[k]) } else { None }
}
/// b is a with exactly the string k set, stored protected or not as said.
pub open spec fn set_string(a: Entry, b: Entry, k: StringKey, text: Seq<char>, protected: bool) -> bool {
    &&& b == (Entry { strings: b.strings, ..a })
    &&& b.strings@ == a.strings@.insert(k, b.strings@[k])
    &&& str_of(b.strings@[k]) == Some(text)
    &&& (b.strings@[k] is Protected <==> protected)
}
/// C16: the string set reads back as the text set, every other string reads as before.
pub proof fn setting_a_string_changes_that_string_only(a: Entry, b: Entry, k: StringKey, text: Seq<char>, protected: bool)
    requires set_string(a, b, k, text, protected)
    ensures
        reads(b, k) == Some(text),
        forall|j: StringKey| j != k ==> reads(b, j) == reads(a, j) && b.strings@.contains_key(j) == a.strings@.contains_key(j)
            && (a.strings@.contains_key(j) ==> b.strings@[j] == a.strings@[j]),
{
    assert(b.strings@.contains_key(k));
}
/// What an entry that nothing says anything about is.
pub open spec fn is_default_entry(e: Entry) -> bool {
    &&& e.associations@.len() == 0 && e.auto_type_def_sequence@.len() == 0 && e.auto_type_enabled && e.auto_type_obfuscation is None
    &&& e.background_color is None && e.binaries@ == Map::<BinaryKey, BinaryValue>::empty() && e.custom_icon_uuid is None && !e.expires
    &&& e.foreground_color is None && e.history@.len() == 0 && e.icon is Key && e.override_url@.len() == 0
    &&& e.strings@ == Map::<StringKey, StringValue>::empty() && e.tags@.len() == 0 && e.usage_count == 0
    &&& e.uuid == EntryUuid(crate::vx::uuid::nil_uuid()) && e.parent == GroupUuid(crate::vx::uuid::nil_uuid())
    &&& e.creation_time == the_time() && e.expiry_time == e.creation_time && e.last_accessed == e.creation_time && e.last_modified == e.creation_time && e.location_changed == e.creation_time
}
@fn Entry::new
@props C16
@ret r
@spec
    ensures is_default_entry(Entry { uuid: EntryUuid(crate::vx::uuid::nil_uuid()), ..r }),
@fn Entry::notes
@props C16
@ret r
@spec
    ensures match r { Some(t) => reads(*self, StringKey::Notes) == Some(t@), None => reads(*self, StringKey::Notes) is None },
@fn Entry::password
@props C16
@ret r
@spec
    ensures match r { Some(t) => reads(*self, StringKey::Password) == Some(t@), None => reads(*self, StringKey::Password) is None },
@fn Entry::title
@props C16
@ret r
@spec
    ensures match r { Some(t) => reads(*self, StringKey::Title) == Some(t@), None => reads(*self, StringKey::Title) is None },
@fn Entry::url
@props C16
@ret r
@spec
    ensures match r { Some(t) => reads(*self, StringKey::Url) == Some(t@), None => reads(*self, StringKey::Url) is None },
@fn Entry::username
@props C16
@ret r
@spec
    ensures match r { Some(t) => reads(*self, StringKey::Username) == Some(t@), None => reads(*self, StringKey::Username) is None },
@fn Entry::other
@props C16
@ret r
@spec
    ensures match r { Some(t) => reads(*self, key) == Some(t@), None => reads(*self, key) is None },
@start
        broadcast use group_keys;
        broadcast use vstd::utf8::group_utf8_lib;
@fn Entry::set_notes
@props C16
@spec
    ensures set_string(*old(self), *final(self), StringKey::Notes, val.vinto(), false),
@start
        broadcast use group_keys;
@fn Entry::set_password
@props C16
@spec
    ensures set_string(*old(self), *final(self), StringKey::Password, val.vinto(), true),
@start
        broadcast use group_keys;
@fn Entry::set_title
@props C16
@spec
    ensures set_string(*old(self), *final(self), StringKey::Title, val.vinto(), false),
@start
        broadcast use group_keys;
@fn Entry::set_url
@props C16
@spec
    ensures set_string(*old(self), *final(self), StringKey::Url, val.vinto(), false),
@start
        broadcast use group_keys;
@fn Entry::set_username
@props C16
@spec
    ensures set_string(*old(self), *final(self), StringKey::Username, val.vinto(), false),
@start
        broadcast use group_keys;
@fn Entry::set_other
@props C16
@spec
    ensures set_string(*old(self), *final(self), key, val.vinto(), false),
@start
        broadcast use group_keys;
@fn Default for Entry::default
@props C18 C01
@ret r
@spec
    ensures is_default_entry(r),
@start
        broadcast use group_keys;
@impl Times for Entry
    open spec fn t_creation_time(&self) -> DateTime<Utc> { self.creation_time }
    open spec fn t_expires(&self) -> bool { self.expires }
    open spec fn t_expiry_time(&self) -> DateTime<Utc> { self.expiry_time }
    open spec fn t_last_accessed(&self) -> DateTime<Utc> { self.last_accessed }
    open spec fn t_last_modified(&self) -> DateTime<Utc> { self.last_modified }
    open spec fn t_location_changed(&self) -> DateTime<Utc> { self.location_changed }
    open spec fn t_usage_count(&self) -> i32 { self.usage_count }
    open spec fn t_rest(&self) -> Bare { Bare::E(Entry { creation_time: the_time(), expires: false, expiry_time: the_time(), last_accessed: the_time(), last_modified: the_time(), location_changed: the_time(), usage_count: 0, ..*self }) }
@fn Times for Entry::creation_time
@props C16
@fn Times for Entry::expires
@props C16
@fn Times for Entry::expiry_time
@props C16
@fn Times for Entry::last_accessed
@props C16
@fn Times for Entry::last_modified
@props C16
@fn Times for Entry::location_changed
@props C16
@fn Times for Entry::usage_count
@props C16
@fn Times for Entry::set_creation_time
@props C16
@spec
    ensures *final(self) == (Entry { creation_time: val, ..*old(self) }),
@fn Times for Entry::set_expires
@props C16
@spec
    ensures *final(self) == (Entry { expires: val, ..*old(self) }),
@fn Times for Entry::set_expiry_time
@props C16
@spec
    ensures *final(self) == (Entry { expiry_time: val, ..*old(self) }),
@fn Times for Entry::set_last_accessed
@props C16
@spec
    ensures *final(self) == (Entry { last_accessed: val, ..*old(self) }),
@fn Times for Entry::set_last_modified
@props C16
@spec
    ensures *final(self) == (Entry { last_modified: val, ..*old(self) }),
@fn Times for Entry::set_location_changed
@props C16
@spec
    ensures *final(self) == (Entry { location_changed: val, ..*old(self) }),
@fn Times for Entry::set_usage_count
@props C16
@spec
    ensures *final(self) == (Entry { usage_count: val, ..*old(self) }),


@module types::xml_data
@top
use crate::vx::{chrono::the_time, uuid::nil_uuid};
/// What a document that says nothing gives.
pub open spec fn is_default_data(x: XmlData) -> bool {
    &&& x.binaries@ == Map::<crate::types::BinaryId, Vec<u8>>::empty() && x.color is None && x.custom_data@ == Map::<String, String>::empty()
    &&& x.custom_icons@ == Map::<crate::types::CustomIconUuid, Vec<u8>>::empty() && x.def_username@.len() == 0 && x.description@.len() == 0
    &&& x.generator@.len() == 0 && x.header_hash is None && x.name@.len() == 0 && x.root_group is None
    &&& x.def_username_changed == the_time() && x.description_changed == the_time() && x.entry_templates_group_changed == the_time()
    &&& x.master_key_changed == the_time() && x.name_changed == the_time() && x.recycle_bin_changed == the_time()
    &&& x.entry_templates_group_uuid == GroupUuid(nil_uuid()) && x.last_selected_group == GroupUuid(nil_uuid())
    &&& x.last_top_visible_group == GroupUuid(nil_uuid()) && x.recycle_bin_uuid == GroupUuid(nil_uuid())
    &&& x.history_max_items == 10 && x.history_max_size == 6291456 && x.maintenance_history_days == 365 && x.master_key_change_force == -1
    &&& x.master_key_change_rec == -1 && !x.protect_notes && x.protect_password && !x.protect_title && !x.protect_url && !x.protect_username && x.recycle_bin_enabled
}
@fn Default for XmlData::default
@props C18 C01
@ret r
@spec
    ensures is_default_data(r),
@start
        broadcast use crate::vx::keys::group_keys;

@module types::version
@fn Version::new_kdb2
@props C06
@ret r
@spec
    ensures r.major == 3, r.minor == 1,
