@module types::icon
@top
impl crate::vx::fmt::VDisplay for IconError { uninterp spec fn disp(&self) -> Seq<char>; }
/// KeePass's icon numbers.
pub open spec fn icon_num(i: Icon) -> int {
    match i {
        Icon::Key => 0,
        Icon::World => 1,
        Icon::Warning => 2,
        Icon::Server => 3,
        Icon::MarkedDirectory => 4,
        Icon::UserCommunication => 5,
        Icon::Parts => 6,
        Icon::Notepad => 7,
        Icon::WorldSocket => 8,
        Icon::Identity => 9,
        Icon::PaperReady => 10,
        Icon::Digicam => 11,
        Icon::IRCommunication => 12,
        Icon::MultipleKeys => 13,
        Icon::Energy => 14,
        Icon::Scanner => 15,
        Icon::WorldStar => 16,
        Icon::CDRom => 17,
        Icon::Monitor => 18,
        Icon::Email => 19,
        Icon::Configuration => 20,
        Icon::ClipboardReady => 21,
        Icon::PaperNew => 22,
        Icon::Screen => 23,
        Icon::EnergyCareful => 24,
        Icon::Inbox => 25,
        Icon::Disk => 26,
        Icon::Drive => 27,
        Icon::QuickTime => 28,
        Icon::EncryptedTerminal => 29,
        Icon::Console => 30,
        Icon::Printer => 31,
        Icon::Icons => 32,
        Icon::Run => 33,
        Icon::Settings => 34,
        Icon::WorldComputer => 35,
        Icon::Archive => 36,
        Icon::Banking => 37,
        Icon::Smb => 38,
        Icon::Clock => 39,
        Icon::EmailSearch => 40,
        Icon::PaperFlag => 41,
        Icon::Memory => 42,
        Icon::RecycleBin => 43,
        Icon::Note => 44,
        Icon::Expired => 45,
        Icon::Info => 46,
        Icon::Package => 47,
        Icon::Folder => 48,
        Icon::FolderOpen => 49,
        Icon::FolderPackage => 50,
        Icon::LockOpen => 51,
        Icon::PaperLocked => 52,
        Icon::Checked => 53,
        Icon::Pen => 54,
        Icon::Thumbnail => 55,
        Icon::Book => 56,
        Icon::Listing => 57,
        Icon::UserKey => 58,
        Icon::Tool => 59,
        Icon::Home => 60,
        Icon::Star => 61,
        Icon::Tux => 62,
        Icon::Feather => 63,
        Icon::Apple => 64,
        Icon::Wikipedia => 65,
        Icon::Money => 66,
        Icon::Certificate => 67,
        Icon::Phone => 68,
    }
}
pub proof fn icon_codec_is_injective(a: Icon, b: Icon)
    ensures icon_num(a) == icon_num(b) ==> a == b, 0 <= icon_num(a) <= 68 {}
@omit IconError::msg : text of an error message
@fn Icon::from_i32
@props C15 C03
@ret r
@spec
    ensures
        r is Ok <==> 0 <= id <= 68,
        r matches Ok(v) ==> icon_num(v) == id,
@fn Icon::to_i32
@props C15
@ret r
@spec
    ensures r as int == icon_num(self), 0 <= r <= 68,
@fn Default for Icon::default
@props C18
@ret r
@spec
    ensures r is Key,

