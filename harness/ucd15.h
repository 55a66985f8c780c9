/* General categories of Unicode 15.0 (from Python 3.12 unicodedata): start of each run. ?? is not judged. */
static const struct { unsigned cp; char k[3]; } ucd15[] = {
{0x0,"Cc"},{0x20,"Zs"},{0x21,"Po"},{0x24,"Sc"},{0x25,"Po"},{0x28,"Ps"},{0x29,"Pe"},{0x2A,"Po"},{0x2B,"Sm"},{0x2C,"Po"},{0x2D,"Pd"},{0x2E,"Po"},
{0x30,"Nd"},{0x3A,"Po"},{0x3C,"Sm"},{0x3F,"Po"},{0x41,"Lu"},{0x5B,"Ps"},{0x5C,"Po"},{0x5D,"Pe"},{0x5E,"Sk"},{0x5F,"Pc"},{0x60,"Sk"},{0x61,"Ll"},
{0x7B,"Ps"},{0x7C,"Sm"},{0x7D,"Pe"},{0x7E,"Sm"},{0x7F,"Cc"},{0xA0,"Zs"},{0xA1,"Po"},{0xA2,"Sc"},{0xA6,"So"},{0xA7,"Po"},{0xA8,"Sk"},{0xA9,"So"},
{0xAA,"Lo"},{0xAB,"Pi"},{0xAC,"Sm"},{0xAD,"Cf"},{0xAE,"So"},{0xAF,"Sk"},{0xB0,"So"},{0xB1,"Sm"},{0xB2,"No"},{0xB4,"Sk"},{0xB5,"Ll"},{0xB6,"Po"},
{0xB8,"Sk"},{0xB9,"No"},{0xBA,"Lo"},{0xBB,"Pf"},{0xBC,"No"},{0xBF,"Po"},{0xC0,"Lu"},{0xD7,"Sm"},{0xD8,"Lu"},{0xDF,"Ll"},{0xF7,"Sm"},{0xF8,"Ll"},
{0x100,"Lu"},{0x101,"Ll"},{0x102,"Lu"},{0x103,"Ll"},{0x104,"Lu"},{0x105,"Ll"},{0x106,"Lu"},{0x107,"Ll"},{0x108,"Lu"},{0x109,"Ll"},{0x10A,"Lu"},{0x10B,"Ll"},
{0x10C,"Lu"},{0x10D,"Ll"},{0x10E,"Lu"},{0x10F,"Ll"},{0x110,"Lu"},{0x111,"Ll"},{0x112,"Lu"},{0x113,"Ll"},{0x114,"Lu"},{0x115,"Ll"},{0x116,"Lu"},{0x117,"Ll"},
{0x118,"Lu"},{0x119,"Ll"},{0x11A,"Lu"},{0x11B,"Ll"},{0x11C,"Lu"},{0x11D,"Ll"},{0x11E,"Lu"},{0x11F,"Ll"},{0x120,"Lu"},{0x121,"Ll"},{0x122,"Lu"},{0x123,"Ll"},
{0x124,"Lu"},{0x125,"Ll"},{0x126,"Lu"},{0x127,"Ll"},{0x128,"Lu"},{0x129,"Ll"},{0x12A,"Lu"},{0x12B,"Ll"},{0x12C,"Lu"},{0x12D,"Ll"},{0x12E,"Lu"},{0x12F,"Ll"},
{0x130,"Lu"},{0x131,"Ll"},{0x132,"Lu"},{0x133,"Ll"},{0x134,"Lu"},{0x135,"Ll"},{0x136,"Lu"},{0x137,"Ll"},{0x139,"Lu"},{0x13A,"Ll"},{0x13B,"Lu"},{0x13C,"Ll"},
{0x13D,"Lu"},{0x13E,"Ll"},{0x13F,"Lu"},{0x140,"Ll"},{0x141,"Lu"},{0x142,"Ll"},{0x143,"Lu"},{0x144,"Ll"},{0x145,"Lu"},{0x146,"Ll"},{0x147,"Lu"},{0x148,"Ll"},
{0x14A,"Lu"},{0x14B,"Ll"},{0x14C,"Lu"},{0x14D,"Ll"},{0x14E,"Lu"},{0x14F,"Ll"},{0x150,"Lu"},{0x151,"Ll"},{0x152,"Lu"},{0x153,"Ll"},{0x154,"Lu"},{0x155,"Ll"},
{0x156,"Lu"},{0x157,"Ll"},{0x158,"Lu"},{0x159,"Ll"},{0x15A,"Lu"},{0x15B,"Ll"},{0x15C,"Lu"},{0x15D,"Ll"},{0x15E,"Lu"},{0x15F,"Ll"},{0x160,"Lu"},{0x161,"Ll"},
{0x162,"Lu"},{0x163,"Ll"},{0x164,"Lu"},{0x165,"Ll"},{0x166,"Lu"},{0x167,"Ll"},{0x168,"Lu"},{0x169,"Ll"},{0x16A,"Lu"},{0x16B,"Ll"},{0x16C,"Lu"},{0x16D,"Ll"},
{0x16E,"Lu"},{0x16F,"Ll"},{0x170,"Lu"},{0x171,"Ll"},{0x172,"Lu"},{0x173,"Ll"},{0x174,"Lu"},{0x175,"Ll"},{0x176,"Lu"},{0x177,"Ll"},{0x178,"Lu"},{0x17A,"Ll"},
{0x17B,"Lu"},{0x17C,"Ll"},{0x17D,"Lu"},{0x17E,"Ll"},{0x181,"Lu"},{0x183,"Ll"},{0x184,"Lu"},{0x185,"Ll"},{0x186,"Lu"},{0x188,"Ll"},{0x189,"Lu"},{0x18C,"Ll"},
{0x18E,"Lu"},{0x192,"Ll"},{0x193,"Lu"},{0x195,"Ll"},{0x196,"Lu"},{0x199,"Ll"},{0x19C,"Lu"},{0x19E,"Ll"},{0x19F,"Lu"},{0x1A1,"Ll"},{0x1A2,"Lu"},{0x1A3,"Ll"},
{0x1A4,"Lu"},{0x1A5,"Ll"},{0x1A6,"Lu"},{0x1A8,"Ll"},{0x1A9,"Lu"},{0x1AA,"Ll"},{0x1AC,"Lu"},{0x1AD,"Ll"},{0x1AE,"Lu"},{0x1B0,"Ll"},{0x1B1,"Lu"},{0x1B4,"Ll"},
{0x1B5,"Lu"},{0x1B6,"Ll"},{0x1B7,"Lu"},{0x1B9,"Ll"},{0x1BB,"Lo"},{0x1BC,"Lu"},{0x1BD,"Ll"},{0x1C0,"Lo"},{0x1C4,"Lu"},{0x1C5,"Lt"},{0x1C6,"Ll"},{0x1C7,"Lu"},
{0x1C8,"Lt"},{0x1C9,"Ll"},{0x1CA,"Lu"},{0x1CB,"Lt"},{0x1CC,"Ll"},{0x1CD,"Lu"},{0x1CE,"Ll"},{0x1CF,"Lu"},{0x1D0,"Ll"},{0x1D1,"Lu"},{0x1D2,"Ll"},{0x1D3,"Lu"},
{0x1D4,"Ll"},{0x1D5,"Lu"},{0x1D6,"Ll"},{0x1D7,"Lu"},{0x1D8,"Ll"},{0x1D9,"Lu"},{0x1DA,"Ll"},{0x1DB,"Lu"},{0x1DC,"Ll"},{0x1DE,"Lu"},{0x1DF,"Ll"},{0x1E0,"Lu"},
{0x1E1,"Ll"},{0x1E2,"Lu"},{0x1E3,"Ll"},{0x1E4,"Lu"},{0x1E5,"Ll"},{0x1E6,"Lu"},{0x1E7,"Ll"},{0x1E8,"Lu"},{0x1E9,"Ll"},{0x1EA,"Lu"},{0x1EB,"Ll"},{0x1EC,"Lu"},
{0x1ED,"Ll"},{0x1EE,"Lu"},{0x1EF,"Ll"},{0x1F1,"Lu"},{0x1F2,"Lt"},{0x1F3,"Ll"},{0x1F4,"Lu"},{0x1F5,"Ll"},{0x1F6,"Lu"},{0x1F9,"Ll"},{0x1FA,"Lu"},{0x1FB,"Ll"},
{0x1FC,"Lu"},{0x1FD,"Ll"},{0x1FE,"Lu"},{0x1FF,"Ll"},{0x200,"Lu"},{0x201,"Ll"},{0x202,"Lu"},{0x203,"Ll"},{0x204,"Lu"},{0x205,"Ll"},{0x206,"Lu"},{0x207,"Ll"},
{0x208,"Lu"},{0x209,"Ll"},{0x20A,"Lu"},{0x20B,"Ll"},{0x20C,"Lu"},{0x20D,"Ll"},{0x20E,"Lu"},{0x20F,"Ll"},{0x210,"Lu"},{0x211,"Ll"},{0x212,"Lu"},{0x213,"Ll"},
{0x214,"Lu"},{0x215,"Ll"},{0x216,"Lu"},{0x217,"Ll"},{0x218,"Lu"},{0x219,"Ll"},{0x21A,"Lu"},{0x21B,"Ll"},{0x21C,"Lu"},{0x21D,"Ll"},{0x21E,"Lu"},{0x21F,"Ll"},
{0x220,"Lu"},{0x221,"Ll"},{0x222,"Lu"},{0x223,"Ll"},{0x224,"Lu"},{0x225,"Ll"},{0x226,"Lu"},{0x227,"Ll"},{0x228,"Lu"},{0x229,"Ll"},{0x22A,"Lu"},{0x22B,"Ll"},
{0x22C,"Lu"},{0x22D,"Ll"},{0x22E,"Lu"},{0x22F,"Ll"},{0x230,"Lu"},{0x231,"Ll"},{0x232,"Lu"},{0x233,"Ll"},{0x23A,"Lu"},{0x23C,"Ll"},{0x23D,"Lu"},{0x23F,"Ll"},
{0x241,"Lu"},{0x242,"Ll"},{0x243,"Lu"},{0x247,"Ll"},{0x248,"Lu"},{0x249,"Ll"},{0x24A,"Lu"},{0x24B,"Ll"},{0x24C,"Lu"},{0x24D,"Ll"},{0x24E,"Lu"},{0x24F,"Ll"},
{0x294,"Lo"},{0x295,"Ll"},{0x2B0,"Lm"},{0x2C2,"Sk"},{0x2C6,"Lm"},{0x2D2,"Sk"},{0x2E0,"Lm"},{0x2E5,"Sk"},{0x2EC,"Lm"},{0x2ED,"Sk"},{0x2EE,"Lm"},{0x2EF,"Sk"},
{0x300,"Mn"},{0x370,"Lu"},{0x371,"Ll"},{0x372,"Lu"},{0x373,"Ll"},{0x374,"Lm"},{0x375,"Sk"},{0x376,"Lu"},{0x377,"Ll"},{0x378,"Cn"},{0x37A,"Lm"},{0x37B,"Ll"},
{0x37E,"Po"},{0x37F,"Lu"},{0x380,"Cn"},{0x384,"Sk"},{0x386,"Lu"},{0x387,"Po"},{0x388,"Lu"},{0x38B,"Cn"},{0x38C,"Lu"},{0x38D,"Cn"},{0x38E,"Lu"},{0x390,"Ll"},
{0x391,"Lu"},{0x3A2,"Cn"},{0x3A3,"Lu"},{0x3AC,"Ll"},{0x3CF,"Lu"},{0x3D0,"Ll"},{0x3D2,"Lu"},{0x3D5,"Ll"},{0x3D8,"Lu"},{0x3D9,"Ll"},{0x3DA,"Lu"},{0x3DB,"Ll"},
{0x3DC,"Lu"},{0x3DD,"Ll"},{0x3DE,"Lu"},{0x3DF,"Ll"},{0x3E0,"Lu"},{0x3E1,"Ll"},{0x3E2,"Lu"},{0x3E3,"Ll"},{0x3E4,"Lu"},{0x3E5,"Ll"},{0x3E6,"Lu"},{0x3E7,"Ll"},
{0x3E8,"Lu"},{0x3E9,"Ll"},{0x3EA,"Lu"},{0x3EB,"Ll"},{0x3EC,"Lu"},{0x3ED,"Ll"},{0x3EE,"Lu"},{0x3EF,"Ll"},{0x3F4,"Lu"},{0x3F5,"Ll"},{0x3F6,"Sm"},{0x3F7,"Lu"},
{0x3F8,"Ll"},{0x3F9,"Lu"},{0x3FB,"Ll"},{0x3FD,"Lu"},{0x430,"Ll"},{0x460,"Lu"},{0x461,"Ll"},{0x462,"Lu"},{0x463,"Ll"},{0x464,"Lu"},{0x465,"Ll"},{0x466,"Lu"},
{0x467,"Ll"},{0x468,"Lu"},{0x469,"Ll"},{0x46A,"Lu"},{0x46B,"Ll"},{0x46C,"Lu"},{0x46D,"Ll"},{0x46E,"Lu"},{0x46F,"Ll"},{0x470,"Lu"},{0x471,"Ll"},{0x472,"Lu"},
{0x473,"Ll"},{0x474,"Lu"},{0x475,"Ll"},{0x476,"Lu"},{0x477,"Ll"},{0x478,"Lu"},{0x479,"Ll"},{0x47A,"Lu"},{0x47B,"Ll"},{0x47C,"Lu"},{0x47D,"Ll"},{0x47E,"Lu"},
{0x47F,"Ll"},{0x480,"Lu"},{0x481,"Ll"},{0x482,"So"},{0x483,"Mn"},{0x488,"Me"},{0x48A,"Lu"},{0x48B,"Ll"},{0x48C,"Lu"},{0x48D,"Ll"},{0x48E,"Lu"},{0x48F,"Ll"},
{0x490,"Lu"},{0x491,"Ll"},{0x492,"Lu"},{0x493,"Ll"},{0x494,"Lu"},{0x495,"Ll"},{0x496,"Lu"},{0x497,"Ll"},{0x498,"Lu"},{0x499,"Ll"},{0x49A,"Lu"},{0x49B,"Ll"},
{0x49C,"Lu"},{0x49D,"Ll"},{0x49E,"Lu"},{0x49F,"Ll"},{0x4A0,"Lu"},{0x4A1,"Ll"},{0x4A2,"Lu"},{0x4A3,"Ll"},{0x4A4,"Lu"},{0x4A5,"Ll"},{0x4A6,"Lu"},{0x4A7,"Ll"},
{0x4A8,"Lu"},{0x4A9,"Ll"},{0x4AA,"Lu"},{0x4AB,"Ll"},{0x4AC,"Lu"},{0x4AD,"Ll"},{0x4AE,"Lu"},{0x4AF,"Ll"},{0x4B0,"Lu"},{0x4B1,"Ll"},{0x4B2,"Lu"},{0x4B3,"Ll"},
{0x4B4,"Lu"},{0x4B5,"Ll"},{0x4B6,"Lu"},{0x4B7,"Ll"},{0x4B8,"Lu"},{0x4B9,"Ll"},{0x4BA,"Lu"},{0x4BB,"Ll"},{0x4BC,"Lu"},{0x4BD,"Ll"},{0x4BE,"Lu"},{0x4BF,"Ll"},
{0x4C0,"Lu"},{0x4C2,"Ll"},{0x4C3,"Lu"},{0x4C4,"Ll"},{0x4C5,"Lu"},{0x4C6,"Ll"},{0x4C7,"Lu"},{0x4C8,"Ll"},{0x4C9,"Lu"},{0x4CA,"Ll"},{0x4CB,"Lu"},{0x4CC,"Ll"},
{0x4CD,"Lu"},{0x4CE,"Ll"},{0x4D0,"Lu"},{0x4D1,"Ll"},{0x4D2,"Lu"},{0x4D3,"Ll"},{0x4D4,"Lu"},{0x4D5,"Ll"},{0x4D6,"Lu"},{0x4D7,"Ll"},{0x4D8,"Lu"},{0x4D9,"Ll"},
{0x4DA,"Lu"},{0x4DB,"Ll"},{0x4DC,"Lu"},{0x4DD,"Ll"},{0x4DE,"Lu"},{0x4DF,"Ll"},{0x4E0,"Lu"},{0x4E1,"Ll"},{0x4E2,"Lu"},{0x4E3,"Ll"},{0x4E4,"Lu"},{0x4E5,"Ll"},
{0x4E6,"Lu"},{0x4E7,"Ll"},{0x4E8,"Lu"},{0x4E9,"Ll"},{0x4EA,"Lu"},{0x4EB,"Ll"},{0x4EC,"Lu"},{0x4ED,"Ll"},{0x4EE,"Lu"},{0x4EF,"Ll"},{0x4F0,"Lu"},{0x4F1,"Ll"},
{0x4F2,"Lu"},{0x4F3,"Ll"},{0x4F4,"Lu"},{0x4F5,"Ll"},{0x4F6,"Lu"},{0x4F7,"Ll"},{0x4F8,"Lu"},{0x4F9,"Ll"},{0x4FA,"Lu"},{0x4FB,"Ll"},{0x4FC,"Lu"},{0x4FD,"Ll"},
{0x4FE,"Lu"},{0x4FF,"Ll"},{0x500,"Lu"},{0x501,"Ll"},{0x502,"Lu"},{0x503,"Ll"},{0x504,"Lu"},{0x505,"Ll"},{0x506,"Lu"},{0x507,"Ll"},{0x508,"Lu"},{0x509,"Ll"},
{0x50A,"Lu"},{0x50B,"Ll"},{0x50C,"Lu"},{0x50D,"Ll"},{0x50E,"Lu"},{0x50F,"Ll"},{0x510,"Lu"},{0x511,"Ll"},{0x512,"Lu"},{0x513,"Ll"},{0x514,"Lu"},{0x515,"Ll"},
{0x516,"Lu"},{0x517,"Ll"},{0x518,"Lu"},{0x519,"Ll"},{0x51A,"Lu"},{0x51B,"Ll"},{0x51C,"Lu"},{0x51D,"Ll"},{0x51E,"Lu"},{0x51F,"Ll"},{0x520,"Lu"},{0x521,"Ll"},
{0x522,"Lu"},{0x523,"Ll"},{0x524,"Lu"},{0x525,"Ll"},{0x526,"Lu"},{0x527,"Ll"},{0x528,"Lu"},{0x529,"Ll"},{0x52A,"Lu"},{0x52B,"Ll"},{0x52C,"Lu"},{0x52D,"Ll"},
{0x52E,"Lu"},{0x52F,"Ll"},{0x530,"Cn"},{0x531,"Lu"},{0x557,"Cn"},{0x559,"Lm"},{0x55A,"Po"},{0x560,"Ll"},{0x589,"Po"},{0x58A,"Pd"},{0x58B,"Cn"},{0x58D,"So"},
{0x58F,"Sc"},{0x590,"Cn"},{0x591,"Mn"},{0x5BE,"Pd"},{0x5BF,"Mn"},{0x5C0,"Po"},{0x5C1,"Mn"},{0x5C3,"Po"},{0x5C4,"Mn"},{0x5C6,"Po"},{0x5C7,"Mn"},{0x5C8,"Cn"},
{0x5D0,"Lo"},{0x5EB,"Cn"},{0x5EF,"Lo"},{0x5F3,"Po"},{0x5F5,"Cn"},{0x600,"Cf"},{0x606,"Sm"},{0x609,"Po"},{0x60B,"Sc"},{0x60C,"Po"},{0x60E,"So"},{0x610,"Mn"},
{0x61B,"Po"},{0x61C,"Cf"},{0x61D,"Po"},{0x620,"Lo"},{0x640,"Lm"},{0x641,"Lo"},{0x64B,"Mn"},{0x660,"Nd"},{0x66A,"Po"},{0x66E,"Lo"},{0x670,"Mn"},{0x671,"Lo"},
{0x6D4,"Po"},{0x6D5,"Lo"},{0x6D6,"Mn"},{0x6DD,"Cf"},{0x6DE,"So"},{0x6DF,"Mn"},{0x6E5,"Lm"},{0x6E7,"Mn"},{0x6E9,"So"},{0x6EA,"Mn"},{0x6EE,"Lo"},{0x6F0,"Nd"},
{0x6FA,"Lo"},{0x6FD,"So"},{0x6FF,"Lo"},{0x700,"Po"},{0x70E,"Cn"},{0x70F,"Cf"},{0x710,"Lo"},{0x711,"Mn"},{0x712,"Lo"},{0x730,"Mn"},{0x74B,"Cn"},{0x74D,"Lo"},
{0x7A6,"Mn"},{0x7B1,"Lo"},{0x7B2,"Cn"},{0x7C0,"Nd"},{0x7CA,"Lo"},{0x7EB,"Mn"},{0x7F4,"Lm"},{0x7F6,"So"},{0x7F7,"Po"},{0x7FA,"Lm"},{0x7FB,"Cn"},{0x7FD,"Mn"},
{0x7FE,"Sc"},{0x800,"Lo"},{0x816,"Mn"},{0x81A,"Lm"},{0x81B,"Mn"},{0x824,"Lm"},{0x825,"Mn"},{0x828,"Lm"},{0x829,"Mn"},{0x82E,"Cn"},{0x830,"Po"},{0x83F,"Cn"},
{0x840,"Lo"},{0x859,"Mn"},{0x85C,"Cn"},{0x85E,"Po"},{0x85F,"Cn"},{0x860,"Lo"},{0x86B,"Cn"},{0x870,"Lo"},{0x888,"Sk"},{0x889,"Lo"},{0x88F,"Cn"},{0x890,"Cf"},
{0x892,"Cn"},{0x898,"Mn"},{0x8A0,"Lo"},{0x8C9,"Lm"},{0x8CA,"Mn"},{0x8E2,"Cf"},{0x8E3,"Mn"},{0x903,"Mc"},{0x904,"Lo"},{0x93A,"Mn"},{0x93B,"Mc"},{0x93C,"Mn"},
{0x93D,"Lo"},{0x93E,"Mc"},{0x941,"Mn"},{0x949,"Mc"},{0x94D,"Mn"},{0x94E,"Mc"},{0x950,"Lo"},{0x951,"Mn"},{0x958,"Lo"},{0x962,"Mn"},{0x964,"Po"},{0x966,"Nd"},
{0x970,"Po"},{0x971,"Lm"},{0x972,"Lo"},{0x981,"Mn"},{0x982,"Mc"},{0x984,"Cn"},{0x985,"Lo"},{0x98D,"Cn"},{0x98F,"Lo"},{0x991,"Cn"},{0x993,"Lo"},{0x9A9,"Cn"},
{0x9AA,"Lo"},{0x9B1,"Cn"},{0x9B2,"Lo"},{0x9B3,"Cn"},{0x9B6,"Lo"},{0x9BA,"Cn"},{0x9BC,"Mn"},{0x9BD,"Lo"},{0x9BE,"Mc"},{0x9C1,"Mn"},{0x9C5,"Cn"},{0x9C7,"Mc"},
{0x9C9,"Cn"},{0x9CB,"Mc"},{0x9CD,"Mn"},{0x9CE,"Lo"},{0x9CF,"Cn"},{0x9D7,"Mc"},{0x9D8,"Cn"},{0x9DC,"Lo"},{0x9DE,"Cn"},{0x9DF,"Lo"},{0x9E2,"Mn"},{0x9E4,"Cn"},
{0x9E6,"Nd"},{0x9F0,"Lo"},{0x9F2,"Sc"},{0x9F4,"No"},{0x9FA,"So"},{0x9FB,"Sc"},{0x9FC,"Lo"},{0x9FD,"Po"},{0x9FE,"Mn"},{0x9FF,"Cn"},{0xA01,"Mn"},{0xA03,"Mc"},
{0xA04,"Cn"},{0xA05,"Lo"},{0xA0B,"Cn"},{0xA0F,"Lo"},{0xA11,"Cn"},{0xA13,"Lo"},{0xA29,"Cn"},{0xA2A,"Lo"},{0xA31,"Cn"},{0xA32,"Lo"},{0xA34,"Cn"},{0xA35,"Lo"},
{0xA37,"Cn"},{0xA38,"Lo"},{0xA3A,"Cn"},{0xA3C,"Mn"},{0xA3D,"Cn"},{0xA3E,"Mc"},{0xA41,"Mn"},{0xA43,"Cn"},{0xA47,"Mn"},{0xA49,"Cn"},{0xA4B,"Mn"},{0xA4E,"Cn"},
{0xA51,"Mn"},{0xA52,"Cn"},{0xA59,"Lo"},{0xA5D,"Cn"},{0xA5E,"Lo"},{0xA5F,"Cn"},{0xA66,"Nd"},{0xA70,"Mn"},{0xA72,"Lo"},{0xA75,"Mn"},{0xA76,"Po"},{0xA77,"Cn"},
{0xA81,"Mn"},{0xA83,"Mc"},{0xA84,"Cn"},{0xA85,"Lo"},{0xA8E,"Cn"},{0xA8F,"Lo"},{0xA92,"Cn"},{0xA93,"Lo"},{0xAA9,"Cn"},{0xAAA,"Lo"},{0xAB1,"Cn"},{0xAB2,"Lo"},
{0xAB4,"Cn"},{0xAB5,"Lo"},{0xABA,"Cn"},{0xABC,"Mn"},{0xABD,"Lo"},{0xABE,"Mc"},{0xAC1,"Mn"},{0xAC6,"Cn"},{0xAC7,"Mn"},{0xAC9,"Mc"},{0xACA,"Cn"},{0xACB,"Mc"},
{0xACD,"Mn"},{0xACE,"Cn"},{0xAD0,"Lo"},{0xAD1,"Cn"},{0xAE0,"Lo"},{0xAE2,"Mn"},{0xAE4,"Cn"},{0xAE6,"Nd"},{0xAF0,"Po"},{0xAF1,"Sc"},{0xAF2,"Cn"},{0xAF9,"Lo"},
{0xAFA,"Mn"},{0xB00,"Cn"},{0xB01,"Mn"},{0xB02,"Mc"},{0xB04,"Cn"},{0xB05,"Lo"},{0xB0D,"Cn"},{0xB0F,"Lo"},{0xB11,"Cn"},{0xB13,"Lo"},{0xB29,"Cn"},{0xB2A,"Lo"},
{0xB31,"Cn"},{0xB32,"Lo"},{0xB34,"Cn"},{0xB35,"Lo"},{0xB3A,"Cn"},{0xB3C,"Mn"},{0xB3D,"Lo"},{0xB3E,"Mc"},{0xB3F,"Mn"},{0xB40,"Mc"},{0xB41,"Mn"},{0xB45,"Cn"},
{0xB47,"Mc"},{0xB49,"Cn"},{0xB4B,"Mc"},{0xB4D,"Mn"},{0xB4E,"Cn"},{0xB55,"Mn"},{0xB57,"Mc"},{0xB58,"Cn"},{0xB5C,"Lo"},{0xB5E,"Cn"},{0xB5F,"Lo"},{0xB62,"Mn"},
{0xB64,"Cn"},{0xB66,"Nd"},{0xB70,"So"},{0xB71,"Lo"},{0xB72,"No"},{0xB78,"Cn"},{0xB82,"Mn"},{0xB83,"Lo"},{0xB84,"Cn"},{0xB85,"Lo"},{0xB8B,"Cn"},{0xB8E,"Lo"},
{0xB91,"Cn"},{0xB92,"Lo"},{0xB96,"Cn"},{0xB99,"Lo"},{0xB9B,"Cn"},{0xB9C,"Lo"},{0xB9D,"Cn"},{0xB9E,"Lo"},{0xBA0,"Cn"},{0xBA3,"Lo"},{0xBA5,"Cn"},{0xBA8,"Lo"},
{0xBAB,"Cn"},{0xBAE,"Lo"},{0xBBA,"Cn"},{0xBBE,"Mc"},{0xBC0,"Mn"},{0xBC1,"Mc"},{0xBC3,"Cn"},{0xBC6,"Mc"},{0xBC9,"Cn"},{0xBCA,"Mc"},{0xBCD,"Mn"},{0xBCE,"Cn"},
{0xBD0,"Lo"},{0xBD1,"Cn"},{0xBD7,"Mc"},{0xBD8,"Cn"},{0xBE6,"Nd"},{0xBF0,"No"},{0xBF3,"So"},{0xBF9,"Sc"},{0xBFA,"So"},{0xBFB,"Cn"},{0xC00,"Mn"},{0xC01,"Mc"},
{0xC04,"Mn"},{0xC05,"Lo"},{0xC0D,"Cn"},{0xC0E,"Lo"},{0xC11,"Cn"},{0xC12,"Lo"},{0xC29,"Cn"},{0xC2A,"Lo"},{0xC3A,"Cn"},{0xC3C,"Mn"},{0xC3D,"Lo"},{0xC3E,"Mn"},
{0xC41,"Mc"},{0xC45,"Cn"},{0xC46,"Mn"},{0xC49,"Cn"},{0xC4A,"Mn"},{0xC4E,"Cn"},{0xC55,"Mn"},{0xC57,"Cn"},{0xC58,"Lo"},{0xC5B,"Cn"},{0xC5D,"Lo"},{0xC5E,"Cn"},
{0xC60,"Lo"},{0xC62,"Mn"},{0xC64,"Cn"},{0xC66,"Nd"},{0xC70,"Cn"},{0xC77,"Po"},{0xC78,"No"},{0xC7F,"So"},{0xC80,"Lo"},{0xC81,"Mn"},{0xC82,"Mc"},{0xC84,"Po"},
{0xC85,"Lo"},{0xC8D,"Cn"},{0xC8E,"Lo"},{0xC91,"Cn"},{0xC92,"Lo"},{0xCA9,"Cn"},{0xCAA,"Lo"},{0xCB4,"Cn"},{0xCB5,"Lo"},{0xCBA,"Cn"},{0xCBC,"Mn"},{0xCBD,"Lo"},
{0xCBE,"Mc"},{0xCBF,"Mn"},{0xCC0,"Mc"},{0xCC5,"Cn"},{0xCC6,"Mn"},{0xCC7,"Mc"},{0xCC9,"Cn"},{0xCCA,"Mc"},{0xCCC,"Mn"},{0xCCE,"Cn"},{0xCD5,"Mc"},{0xCD7,"Cn"},
{0xCDD,"Lo"},{0xCDF,"Cn"},{0xCE0,"Lo"},{0xCE2,"Mn"},{0xCE4,"Cn"},{0xCE6,"Nd"},{0xCF0,"Cn"},{0xCF1,"Lo"},{0xCF3,"Mc"},{0xCF4,"Cn"},{0xD00,"Mn"},{0xD02,"Mc"},
{0xD04,"Lo"},{0xD0D,"Cn"},{0xD0E,"Lo"},{0xD11,"Cn"},{0xD12,"Lo"},{0xD3B,"Mn"},{0xD3D,"Lo"},{0xD3E,"Mc"},{0xD41,"Mn"},{0xD45,"Cn"},{0xD46,"Mc"},{0xD49,"Cn"},
{0xD4A,"Mc"},{0xD4D,"Mn"},{0xD4E,"Lo"},{0xD4F,"So"},{0xD50,"Cn"},{0xD54,"Lo"},{0xD57,"Mc"},{0xD58,"No"},{0xD5F,"Lo"},{0xD62,"Mn"},{0xD64,"Cn"},{0xD66,"Nd"},
{0xD70,"No"},{0xD79,"So"},{0xD7A,"Lo"},{0xD80,"Cn"},{0xD81,"Mn"},{0xD82,"Mc"},{0xD84,"Cn"},{0xD85,"Lo"},{0xD97,"Cn"},{0xD9A,"Lo"},{0xDB2,"Cn"},{0xDB3,"Lo"},
{0xDBC,"Cn"},{0xDBD,"Lo"},{0xDBE,"Cn"},{0xDC0,"Lo"},{0xDC7,"Cn"},{0xDCA,"Mn"},{0xDCB,"Cn"},{0xDCF,"Mc"},{0xDD2,"Mn"},{0xDD5,"Cn"},{0xDD6,"Mn"},{0xDD7,"Cn"},
{0xDD8,"Mc"},{0xDE0,"Cn"},{0xDE6,"Nd"},{0xDF0,"Cn"},{0xDF2,"Mc"},{0xDF4,"Po"},{0xDF5,"Cn"},{0xE01,"Lo"},{0xE31,"Mn"},{0xE32,"Lo"},{0xE34,"Mn"},{0xE3B,"Cn"},
{0xE3F,"Sc"},{0xE40,"Lo"},{0xE46,"Lm"},{0xE47,"Mn"},{0xE4F,"Po"},{0xE50,"Nd"},{0xE5A,"Po"},{0xE5C,"Cn"},{0xE81,"Lo"},{0xE83,"Cn"},{0xE84,"Lo"},{0xE85,"Cn"},
{0xE86,"Lo"},{0xE8B,"Cn"},{0xE8C,"Lo"},{0xEA4,"Cn"},{0xEA5,"Lo"},{0xEA6,"Cn"},{0xEA7,"Lo"},{0xEB1,"Mn"},{0xEB2,"Lo"},{0xEB4,"Mn"},{0xEBD,"Lo"},{0xEBE,"Cn"},
{0xEC0,"Lo"},{0xEC5,"Cn"},{0xEC6,"Lm"},{0xEC7,"Cn"},{0xEC8,"Mn"},{0xECF,"Cn"},{0xED0,"Nd"},{0xEDA,"Cn"},{0xEDC,"Lo"},{0xEE0,"Cn"},{0xF00,"Lo"},{0xF01,"So"},
{0xF04,"Po"},{0xF13,"So"},{0xF14,"Po"},{0xF15,"So"},{0xF18,"Mn"},{0xF1A,"So"},{0xF20,"Nd"},{0xF2A,"No"},{0xF34,"So"},{0xF35,"Mn"},{0xF36,"So"},{0xF37,"Mn"},
{0xF38,"So"},{0xF39,"Mn"},{0xF3A,"Ps"},{0xF3B,"Pe"},{0xF3C,"Ps"},{0xF3D,"Pe"},{0xF3E,"Mc"},{0xF40,"Lo"},{0xF48,"Cn"},{0xF49,"Lo"},{0xF6D,"Cn"},{0xF71,"Mn"},
{0xF7F,"Mc"},{0xF80,"Mn"},{0xF85,"Po"},{0xF86,"Mn"},{0xF88,"Lo"},{0xF8D,"Mn"},{0xF98,"Cn"},{0xF99,"Mn"},{0xFBD,"Cn"},{0xFBE,"So"},{0xFC6,"Mn"},{0xFC7,"So"},
{0xFCD,"Cn"},{0xFCE,"So"},{0xFD0,"Po"},{0xFD5,"So"},{0xFD9,"Po"},{0xFDB,"Cn"},{0x1000,"Lo"},{0x102B,"Mc"},{0x102D,"Mn"},{0x1031,"Mc"},{0x1032,"Mn"},{0x1038,"Mc"},
{0x1039,"Mn"},{0x103B,"Mc"},{0x103D,"Mn"},{0x103F,"Lo"},{0x1040,"Nd"},{0x104A,"Po"},{0x1050,"Lo"},{0x1056,"Mc"},{0x1058,"Mn"},{0x105A,"Lo"},{0x105E,"Mn"},{0x1061,"Lo"},
{0x1062,"Mc"},{0x1065,"Lo"},{0x1067,"Mc"},{0x106E,"Lo"},{0x1071,"Mn"},{0x1075,"Lo"},{0x1082,"Mn"},{0x1083,"Mc"},{0x1085,"Mn"},{0x1087,"Mc"},{0x108D,"Mn"},{0x108E,"Lo"},
{0x108F,"Mc"},{0x1090,"Nd"},{0x109A,"Mc"},{0x109D,"Mn"},{0x109E,"So"},{0x10A0,"Lu"},{0x10C6,"Cn"},{0x10C7,"Lu"},{0x10C8,"Cn"},{0x10CD,"Lu"},{0x10CE,"Cn"},{0x10D0,"Ll"},
{0x10FB,"Po"},{0x10FC,"Lm"},{0x10FD,"Ll"},{0x1100,"Lo"},{0x1249,"Cn"},{0x124A,"Lo"},{0x124E,"Cn"},{0x1250,"Lo"},{0x1257,"Cn"},{0x1258,"Lo"},{0x1259,"Cn"},{0x125A,"Lo"},
{0x125E,"Cn"},{0x1260,"Lo"},{0x1289,"Cn"},{0x128A,"Lo"},{0x128E,"Cn"},{0x1290,"Lo"},{0x12B1,"Cn"},{0x12B2,"Lo"},{0x12B6,"Cn"},{0x12B8,"Lo"},{0x12BF,"Cn"},{0x12C0,"Lo"},
{0x12C1,"Cn"},{0x12C2,"Lo"},{0x12C6,"Cn"},{0x12C8,"Lo"},{0x12D7,"Cn"},{0x12D8,"Lo"},{0x1311,"Cn"},{0x1312,"Lo"},{0x1316,"Cn"},{0x1318,"Lo"},{0x135B,"Cn"},{0x135D,"Mn"},
{0x1360,"Po"},{0x1369,"No"},{0x137D,"Cn"},{0x1380,"Lo"},{0x1390,"So"},{0x139A,"Cn"},{0x13A0,"Lu"},{0x13F6,"Cn"},{0x13F8,"Ll"},{0x13FE,"Cn"},{0x1400,"Pd"},{0x1401,"Lo"},
{0x166D,"So"},{0x166E,"Po"},{0x166F,"Lo"},{0x1680,"Zs"},{0x1681,"Lo"},{0x169B,"Ps"},{0x169C,"Pe"},{0x169D,"Cn"},{0x16A0,"Lo"},{0x16EB,"Po"},{0x16EE,"Nl"},{0x16F1,"Lo"},
{0x16F9,"Cn"},{0x1700,"Lo"},{0x1712,"Mn"},{0x1715,"Mc"},{0x1716,"Cn"},{0x171F,"Lo"},{0x1732,"Mn"},{0x1734,"Mc"},{0x1735,"Po"},{0x1737,"Cn"},{0x1740,"Lo"},{0x1752,"Mn"},
{0x1754,"Cn"},{0x1760,"Lo"},{0x176D,"Cn"},{0x176E,"Lo"},{0x1771,"Cn"},{0x1772,"Mn"},{0x1774,"Cn"},{0x1780,"Lo"},{0x17B4,"Mn"},{0x17B6,"Mc"},{0x17B7,"Mn"},{0x17BE,"Mc"},
{0x17C6,"Mn"},{0x17C7,"Mc"},{0x17C9,"Mn"},{0x17D4,"Po"},{0x17D7,"Lm"},{0x17D8,"Po"},{0x17DB,"Sc"},{0x17DC,"Lo"},{0x17DD,"Mn"},{0x17DE,"Cn"},{0x17E0,"Nd"},{0x17EA,"Cn"},
{0x17F0,"No"},{0x17FA,"Cn"},{0x1800,"Po"},{0x1806,"Pd"},{0x1807,"Po"},{0x180B,"Mn"},{0x180E,"Cf"},{0x180F,"Mn"},{0x1810,"Nd"},{0x181A,"Cn"},{0x1820,"Lo"},{0x1843,"Lm"},
{0x1844,"Lo"},{0x1879,"Cn"},{0x1880,"Lo"},{0x1885,"Mn"},{0x1887,"Lo"},{0x18A9,"Mn"},{0x18AA,"Lo"},{0x18AB,"Cn"},{0x18B0,"Lo"},{0x18F6,"Cn"},{0x1900,"Lo"},{0x191F,"Cn"},
{0x1920,"Mn"},{0x1923,"Mc"},{0x1927,"Mn"},{0x1929,"Mc"},{0x192C,"Cn"},{0x1930,"Mc"},{0x1932,"Mn"},{0x1933,"Mc"},{0x1939,"Mn"},{0x193C,"Cn"},{0x1940,"So"},{0x1941,"Cn"},
{0x1944,"Po"},{0x1946,"Nd"},{0x1950,"Lo"},{0x196E,"Cn"},{0x1970,"Lo"},{0x1975,"Cn"},{0x1980,"Lo"},{0x19AC,"Cn"},{0x19B0,"Lo"},{0x19CA,"Cn"},{0x19D0,"Nd"},{0x19DA,"No"},
{0x19DB,"Cn"},{0x19DE,"So"},{0x1A00,"Lo"},{0x1A17,"Mn"},{0x1A19,"Mc"},{0x1A1B,"Mn"},{0x1A1C,"Cn"},{0x1A1E,"Po"},{0x1A20,"Lo"},{0x1A55,"Mc"},{0x1A56,"Mn"},{0x1A57,"Mc"},
{0x1A58,"Mn"},{0x1A5F,"Cn"},{0x1A60,"Mn"},{0x1A61,"Mc"},{0x1A62,"Mn"},{0x1A63,"Mc"},{0x1A65,"Mn"},{0x1A6D,"Mc"},{0x1A73,"Mn"},{0x1A7D,"Cn"},{0x1A7F,"Mn"},{0x1A80,"Nd"},
{0x1A8A,"Cn"},{0x1A90,"Nd"},{0x1A9A,"Cn"},{0x1AA0,"Po"},{0x1AA7,"Lm"},{0x1AA8,"Po"},{0x1AAE,"Cn"},{0x1AB0,"Mn"},{0x1ABE,"Me"},{0x1ABF,"Mn"},{0x1ACF,"Cn"},{0x1B00,"Mn"},
{0x1B04,"Mc"},{0x1B05,"Lo"},{0x1B34,"Mn"},{0x1B35,"Mc"},{0x1B36,"Mn"},{0x1B3B,"Mc"},{0x1B3C,"Mn"},{0x1B3D,"Mc"},{0x1B42,"Mn"},{0x1B43,"Mc"},{0x1B45,"Lo"},{0x1B4D,"Cn"},
{0x1B50,"Nd"},{0x1B5A,"Po"},{0x1B61,"So"},{0x1B6B,"Mn"},{0x1B74,"So"},{0x1B7D,"Po"},{0x1B7F,"Cn"},{0x1B80,"Mn"},{0x1B82,"Mc"},{0x1B83,"Lo"},{0x1BA1,"Mc"},{0x1BA2,"Mn"},
{0x1BA6,"Mc"},{0x1BA8,"Mn"},{0x1BAA,"Mc"},{0x1BAB,"Mn"},{0x1BAE,"Lo"},{0x1BB0,"Nd"},{0x1BBA,"Lo"},{0x1BE6,"Mn"},{0x1BE7,"Mc"},{0x1BE8,"Mn"},{0x1BEA,"Mc"},{0x1BED,"Mn"},
{0x1BEE,"Mc"},{0x1BEF,"Mn"},{0x1BF2,"Mc"},{0x1BF4,"Cn"},{0x1BFC,"Po"},{0x1C00,"Lo"},{0x1C24,"Mc"},{0x1C2C,"Mn"},{0x1C34,"Mc"},{0x1C36,"Mn"},{0x1C38,"Cn"},{0x1C3B,"Po"},
{0x1C40,"Nd"},{0x1C4A,"Cn"},{0x1C4D,"Lo"},{0x1C50,"Nd"},{0x1C5A,"Lo"},{0x1C78,"Lm"},{0x1C7E,"Po"},{0x1C80,"Ll"},{0x1C89,"Cn"},{0x1C90,"Lu"},{0x1CBB,"Cn"},{0x1CBD,"Lu"},
{0x1CC0,"Po"},{0x1CC8,"Cn"},{0x1CD0,"Mn"},{0x1CD3,"Po"},{0x1CD4,"Mn"},{0x1CE1,"Mc"},{0x1CE2,"Mn"},{0x1CE9,"Lo"},{0x1CED,"Mn"},{0x1CEE,"Lo"},{0x1CF4,"Mn"},{0x1CF5,"Lo"},
{0x1CF7,"Mc"},{0x1CF8,"Mn"},{0x1CFA,"Lo"},{0x1CFB,"Cn"},{0x1D00,"Ll"},{0x1D2C,"Lm"},{0x1D6B,"Ll"},{0x1D78,"Lm"},{0x1D79,"Ll"},{0x1D9B,"Lm"},{0x1DC0,"Mn"},{0x1E00,"Lu"},
{0x1E01,"Ll"},{0x1E02,"Lu"},{0x1E03,"Ll"},{0x1E04,"Lu"},{0x1E05,"Ll"},{0x1E06,"Lu"},{0x1E07,"Ll"},{0x1E08,"Lu"},{0x1E09,"Ll"},{0x1E0A,"Lu"},{0x1E0B,"Ll"},{0x1E0C,"Lu"},
{0x1E0D,"Ll"},{0x1E0E,"Lu"},{0x1E0F,"Ll"},{0x1E10,"Lu"},{0x1E11,"Ll"},{0x1E12,"Lu"},{0x1E13,"Ll"},{0x1E14,"Lu"},{0x1E15,"Ll"},{0x1E16,"Lu"},{0x1E17,"Ll"},{0x1E18,"Lu"},
{0x1E19,"Ll"},{0x1E1A,"Lu"},{0x1E1B,"Ll"},{0x1E1C,"Lu"},{0x1E1D,"Ll"},{0x1E1E,"Lu"},{0x1E1F,"Ll"},{0x1E20,"Lu"},{0x1E21,"Ll"},{0x1E22,"Lu"},{0x1E23,"Ll"},{0x1E24,"Lu"},
{0x1E25,"Ll"},{0x1E26,"Lu"},{0x1E27,"Ll"},{0x1E28,"Lu"},{0x1E29,"Ll"},{0x1E2A,"Lu"},{0x1E2B,"Ll"},{0x1E2C,"Lu"},{0x1E2D,"Ll"},{0x1E2E,"Lu"},{0x1E2F,"Ll"},{0x1E30,"Lu"},
{0x1E31,"Ll"},{0x1E32,"Lu"},{0x1E33,"Ll"},{0x1E34,"Lu"},{0x1E35,"Ll"},{0x1E36,"Lu"},{0x1E37,"Ll"},{0x1E38,"Lu"},{0x1E39,"Ll"},{0x1E3A,"Lu"},{0x1E3B,"Ll"},{0x1E3C,"Lu"},
{0x1E3D,"Ll"},{0x1E3E,"Lu"},{0x1E3F,"Ll"},{0x1E40,"Lu"},{0x1E41,"Ll"},{0x1E42,"Lu"},{0x1E43,"Ll"},{0x1E44,"Lu"},{0x1E45,"Ll"},{0x1E46,"Lu"},{0x1E47,"Ll"},{0x1E48,"Lu"},
{0x1E49,"Ll"},{0x1E4A,"Lu"},{0x1E4B,"Ll"},{0x1E4C,"Lu"},{0x1E4D,"Ll"},{0x1E4E,"Lu"},{0x1E4F,"Ll"},{0x1E50,"Lu"},{0x1E51,"Ll"},{0x1E52,"Lu"},{0x1E53,"Ll"},{0x1E54,"Lu"},
{0x1E55,"Ll"},{0x1E56,"Lu"},{0x1E57,"Ll"},{0x1E58,"Lu"},{0x1E59,"Ll"},{0x1E5A,"Lu"},{0x1E5B,"Ll"},{0x1E5C,"Lu"},{0x1E5D,"Ll"},{0x1E5E,"Lu"},{0x1E5F,"Ll"},{0x1E60,"Lu"},
{0x1E61,"Ll"},{0x1E62,"Lu"},{0x1E63,"Ll"},{0x1E64,"Lu"},{0x1E65,"Ll"},{0x1E66,"Lu"},{0x1E67,"Ll"},{0x1E68,"Lu"},{0x1E69,"Ll"},{0x1E6A,"Lu"},{0x1E6B,"Ll"},{0x1E6C,"Lu"},
{0x1E6D,"Ll"},{0x1E6E,"Lu"},{0x1E6F,"Ll"},{0x1E70,"Lu"},{0x1E71,"Ll"},{0x1E72,"Lu"},{0x1E73,"Ll"},{0x1E74,"Lu"},{0x1E75,"Ll"},{0x1E76,"Lu"},{0x1E77,"Ll"},{0x1E78,"Lu"},
{0x1E79,"Ll"},{0x1E7A,"Lu"},{0x1E7B,"Ll"},{0x1E7C,"Lu"},{0x1E7D,"Ll"},{0x1E7E,"Lu"},{0x1E7F,"Ll"},{0x1E80,"Lu"},{0x1E81,"Ll"},{0x1E82,"Lu"},{0x1E83,"Ll"},{0x1E84,"Lu"},
{0x1E85,"Ll"},{0x1E86,"Lu"},{0x1E87,"Ll"},{0x1E88,"Lu"},{0x1E89,"Ll"},{0x1E8A,"Lu"},{0x1E8B,"Ll"},{0x1E8C,"Lu"},{0x1E8D,"Ll"},{0x1E8E,"Lu"},{0x1E8F,"Ll"},{0x1E90,"Lu"},
{0x1E91,"Ll"},{0x1E92,"Lu"},{0x1E93,"Ll"},{0x1E94,"Lu"},{0x1E95,"Ll"},{0x1E9E,"Lu"},{0x1E9F,"Ll"},{0x1EA0,"Lu"},{0x1EA1,"Ll"},{0x1EA2,"Lu"},{0x1EA3,"Ll"},{0x1EA4,"Lu"},
{0x1EA5,"Ll"},{0x1EA6,"Lu"},{0x1EA7,"Ll"},{0x1EA8,"Lu"},{0x1EA9,"Ll"},{0x1EAA,"Lu"},{0x1EAB,"Ll"},{0x1EAC,"Lu"},{0x1EAD,"Ll"},{0x1EAE,"Lu"},{0x1EAF,"Ll"},{0x1EB0,"Lu"},
{0x1EB1,"Ll"},{0x1EB2,"Lu"},{0x1EB3,"Ll"},{0x1EB4,"Lu"},{0x1EB5,"Ll"},{0x1EB6,"Lu"},{0x1EB7,"Ll"},{0x1EB8,"Lu"},{0x1EB9,"Ll"},{0x1EBA,"Lu"},{0x1EBB,"Ll"},{0x1EBC,"Lu"},
{0x1EBD,"Ll"},{0x1EBE,"Lu"},{0x1EBF,"Ll"},{0x1EC0,"Lu"},{0x1EC1,"Ll"},{0x1EC2,"Lu"},{0x1EC3,"Ll"},{0x1EC4,"Lu"},{0x1EC5,"Ll"},{0x1EC6,"Lu"},{0x1EC7,"Ll"},{0x1EC8,"Lu"},
{0x1EC9,"Ll"},{0x1ECA,"Lu"},{0x1ECB,"Ll"},{0x1ECC,"Lu"},{0x1ECD,"Ll"},{0x1ECE,"Lu"},{0x1ECF,"Ll"},{0x1ED0,"Lu"},{0x1ED1,"Ll"},{0x1ED2,"Lu"},{0x1ED3,"Ll"},{0x1ED4,"Lu"},
{0x1ED5,"Ll"},{0x1ED6,"Lu"},{0x1ED7,"Ll"},{0x1ED8,"Lu"},{0x1ED9,"Ll"},{0x1EDA,"Lu"},{0x1EDB,"Ll"},{0x1EDC,"Lu"},{0x1EDD,"Ll"},{0x1EDE,"Lu"},{0x1EDF,"Ll"},{0x1EE0,"Lu"},
{0x1EE1,"Ll"},{0x1EE2,"Lu"},{0x1EE3,"Ll"},{0x1EE4,"Lu"},{0x1EE5,"Ll"},{0x1EE6,"Lu"},{0x1EE7,"Ll"},{0x1EE8,"Lu"},{0x1EE9,"Ll"},{0x1EEA,"Lu"},{0x1EEB,"Ll"},{0x1EEC,"Lu"},
{0x1EED,"Ll"},{0x1EEE,"Lu"},{0x1EEF,"Ll"},{0x1EF0,"Lu"},{0x1EF1,"Ll"},{0x1EF2,"Lu"},{0x1EF3,"Ll"},{0x1EF4,"Lu"},{0x1EF5,"Ll"},{0x1EF6,"Lu"},{0x1EF7,"Ll"},{0x1EF8,"Lu"},
{0x1EF9,"Ll"},{0x1EFA,"Lu"},{0x1EFB,"Ll"},{0x1EFC,"Lu"},{0x1EFD,"Ll"},{0x1EFE,"Lu"},{0x1EFF,"Ll"},{0x1F08,"Lu"},{0x1F10,"Ll"},{0x1F16,"Cn"},{0x1F18,"Lu"},{0x1F1E,"Cn"},
{0x1F20,"Ll"},{0x1F28,"Lu"},{0x1F30,"Ll"},{0x1F38,"Lu"},{0x1F40,"Ll"},{0x1F46,"Cn"},{0x1F48,"Lu"},{0x1F4E,"Cn"},{0x1F50,"Ll"},{0x1F58,"Cn"},{0x1F59,"Lu"},{0x1F5A,"Cn"},
{0x1F5B,"Lu"},{0x1F5C,"Cn"},{0x1F5D,"Lu"},{0x1F5E,"Cn"},{0x1F5F,"Lu"},{0x1F60,"Ll"},{0x1F68,"Lu"},{0x1F70,"Ll"},{0x1F7E,"Cn"},{0x1F80,"Ll"},{0x1F88,"Lt"},{0x1F90,"Ll"},
{0x1F98,"Lt"},{0x1FA0,"Ll"},{0x1FA8,"Lt"},{0x1FB0,"Ll"},{0x1FB5,"Cn"},{0x1FB6,"Ll"},{0x1FB8,"Lu"},{0x1FBC,"Lt"},{0x1FBD,"Sk"},{0x1FBE,"Ll"},{0x1FBF,"Sk"},{0x1FC2,"Ll"},
{0x1FC5,"Cn"},{0x1FC6,"Ll"},{0x1FC8,"Lu"},{0x1FCC,"Lt"},{0x1FCD,"Sk"},{0x1FD0,"Ll"},{0x1FD4,"Cn"},{0x1FD6,"Ll"},{0x1FD8,"Lu"},{0x1FDC,"Cn"},{0x1FDD,"Sk"},{0x1FE0,"Ll"},
{0x1FE8,"Lu"},{0x1FED,"Sk"},{0x1FF0,"Cn"},{0x1FF2,"Ll"},{0x1FF5,"Cn"},{0x1FF6,"Ll"},{0x1FF8,"Lu"},{0x1FFC,"Lt"},{0x1FFD,"Sk"},{0x1FFF,"Cn"},{0x2000,"Zs"},{0x200B,"Cf"},
{0x2010,"Pd"},{0x2016,"Po"},{0x2018,"Pi"},{0x2019,"Pf"},{0x201A,"Ps"},{0x201B,"Pi"},{0x201D,"Pf"},{0x201E,"Ps"},{0x201F,"Pi"},{0x2020,"Po"},{0x2028,"Zl"},{0x2029,"Zp"},
{0x202A,"Cf"},{0x202F,"Zs"},{0x2030,"Po"},{0x2039,"Pi"},{0x203A,"Pf"},{0x203B,"Po"},{0x203F,"Pc"},{0x2041,"Po"},{0x2044,"Sm"},{0x2045,"Ps"},{0x2046,"Pe"},{0x2047,"Po"},
{0x2052,"Sm"},{0x2053,"Po"},{0x2054,"Pc"},{0x2055,"Po"},{0x205F,"Zs"},{0x2060,"Cf"},{0x2065,"Cn"},{0x2066,"Cf"},{0x2070,"No"},{0x2071,"Lm"},{0x2072,"Cn"},{0x2074,"No"},
{0x207A,"Sm"},{0x207D,"Ps"},{0x207E,"Pe"},{0x207F,"Lm"},{0x2080,"No"},{0x208A,"Sm"},{0x208D,"Ps"},{0x208E,"Pe"},{0x208F,"Cn"},{0x2090,"Lm"},{0x209D,"Cn"},{0x20A0,"Sc"},
{0x20C1,"Cn"},{0x20D0,"Mn"},{0x20DD,"Me"},{0x20E1,"Mn"},{0x20E2,"Me"},{0x20E5,"Mn"},{0x20F1,"Cn"},{0x2100,"So"},{0x2102,"Lu"},{0x2103,"So"},{0x2107,"Lu"},{0x2108,"So"},
{0x210A,"Ll"},{0x210B,"Lu"},{0x210E,"Ll"},{0x2110,"Lu"},{0x2113,"Ll"},{0x2114,"So"},{0x2115,"Lu"},{0x2116,"So"},{0x2118,"Sm"},{0x2119,"Lu"},{0x211E,"So"},{0x2124,"Lu"},
{0x2125,"So"},{0x2126,"Lu"},{0x2127,"So"},{0x2128,"Lu"},{0x2129,"So"},{0x212A,"Lu"},{0x212E,"So"},{0x212F,"Ll"},{0x2130,"Lu"},{0x2134,"Ll"},{0x2135,"Lo"},{0x2139,"Ll"},
{0x213A,"So"},{0x213C,"Ll"},{0x213E,"Lu"},{0x2140,"Sm"},{0x2145,"Lu"},{0x2146,"Ll"},{0x214A,"So"},{0x214B,"Sm"},{0x214C,"So"},{0x214E,"Ll"},{0x214F,"So"},{0x2150,"No"},
{0x2160,"Nl"},{0x2183,"Lu"},{0x2184,"Ll"},{0x2185,"Nl"},{0x2189,"No"},{0x218A,"So"},{0x218C,"Cn"},{0x2190,"Sm"},{0x2195,"So"},{0x219A,"Sm"},{0x219C,"So"},{0x21A0,"Sm"},
{0x21A1,"So"},{0x21A3,"Sm"},{0x21A4,"So"},{0x21A6,"Sm"},{0x21A7,"So"},{0x21AE,"Sm"},{0x21AF,"So"},{0x21CE,"Sm"},{0x21D0,"So"},{0x21D2,"Sm"},{0x21D3,"So"},{0x21D4,"Sm"},
{0x21D5,"So"},{0x21F4,"Sm"},{0x2300,"So"},{0x2308,"Ps"},{0x2309,"Pe"},{0x230A,"Ps"},{0x230B,"Pe"},{0x230C,"So"},{0x2320,"Sm"},{0x2322,"So"},{0x2329,"Ps"},{0x232A,"Pe"},
{0x232B,"So"},{0x237C,"Sm"},{0x237D,"So"},{0x239B,"Sm"},{0x23B4,"So"},{0x23DC,"Sm"},{0x23E2,"So"},{0x2427,"Cn"},{0x2440,"So"},{0x244B,"Cn"},{0x2460,"No"},{0x249C,"So"},
{0x24EA,"No"},{0x2500,"So"},{0x25B7,"Sm"},{0x25B8,"So"},{0x25C1,"Sm"},{0x25C2,"So"},{0x25F8,"Sm"},{0x2600,"So"},{0x266F,"Sm"},{0x2670,"So"},{0x2768,"Ps"},{0x2769,"Pe"},
{0x276A,"Ps"},{0x276B,"Pe"},{0x276C,"Ps"},{0x276D,"Pe"},{0x276E,"Ps"},{0x276F,"Pe"},{0x2770,"Ps"},{0x2771,"Pe"},{0x2772,"Ps"},{0x2773,"Pe"},{0x2774,"Ps"},{0x2775,"Pe"},
{0x2776,"No"},{0x2794,"So"},{0x27C0,"Sm"},{0x27C5,"Ps"},{0x27C6,"Pe"},{0x27C7,"Sm"},{0x27E6,"Ps"},{0x27E7,"Pe"},{0x27E8,"Ps"},{0x27E9,"Pe"},{0x27EA,"Ps"},{0x27EB,"Pe"},
{0x27EC,"Ps"},{0x27ED,"Pe"},{0x27EE,"Ps"},{0x27EF,"Pe"},{0x27F0,"Sm"},{0x2800,"So"},{0x2900,"Sm"},{0x2983,"Ps"},{0x2984,"Pe"},{0x2985,"Ps"},{0x2986,"Pe"},{0x2987,"Ps"},
{0x2988,"Pe"},{0x2989,"Ps"},{0x298A,"Pe"},{0x298B,"Ps"},{0x298C,"Pe"},{0x298D,"Ps"},{0x298E,"Pe"},{0x298F,"Ps"},{0x2990,"Pe"},{0x2991,"Ps"},{0x2992,"Pe"},{0x2993,"Ps"},
{0x2994,"Pe"},{0x2995,"Ps"},{0x2996,"Pe"},{0x2997,"Ps"},{0x2998,"Pe"},{0x2999,"Sm"},{0x29D8,"Ps"},{0x29D9,"Pe"},{0x29DA,"Ps"},{0x29DB,"Pe"},{0x29DC,"Sm"},{0x29FC,"Ps"},
{0x29FD,"Pe"},{0x29FE,"Sm"},{0x2B00,"So"},{0x2B30,"Sm"},{0x2B45,"So"},{0x2B47,"Sm"},{0x2B4D,"So"},{0x2B74,"Cn"},{0x2B76,"So"},{0x2B96,"Cn"},{0x2B97,"So"},{0x2C00,"Lu"},
{0x2C30,"Ll"},{0x2C60,"Lu"},{0x2C61,"Ll"},{0x2C62,"Lu"},{0x2C65,"Ll"},{0x2C67,"Lu"},{0x2C68,"Ll"},{0x2C69,"Lu"},{0x2C6A,"Ll"},{0x2C6B,"Lu"},{0x2C6C,"Ll"},{0x2C6D,"Lu"},
{0x2C71,"Ll"},{0x2C72,"Lu"},{0x2C73,"Ll"},{0x2C75,"Lu"},{0x2C76,"Ll"},{0x2C7C,"Lm"},{0x2C7E,"Lu"},{0x2C81,"Ll"},{0x2C82,"Lu"},{0x2C83,"Ll"},{0x2C84,"Lu"},{0x2C85,"Ll"},
{0x2C86,"Lu"},{0x2C87,"Ll"},{0x2C88,"Lu"},{0x2C89,"Ll"},{0x2C8A,"Lu"},{0x2C8B,"Ll"},{0x2C8C,"Lu"},{0x2C8D,"Ll"},{0x2C8E,"Lu"},{0x2C8F,"Ll"},{0x2C90,"Lu"},{0x2C91,"Ll"},
{0x2C92,"Lu"},{0x2C93,"Ll"},{0x2C94,"Lu"},{0x2C95,"Ll"},{0x2C96,"Lu"},{0x2C97,"Ll"},{0x2C98,"Lu"},{0x2C99,"Ll"},{0x2C9A,"Lu"},{0x2C9B,"Ll"},{0x2C9C,"Lu"},{0x2C9D,"Ll"},
{0x2C9E,"Lu"},{0x2C9F,"Ll"},{0x2CA0,"Lu"},{0x2CA1,"Ll"},{0x2CA2,"Lu"},{0x2CA3,"Ll"},{0x2CA4,"Lu"},{0x2CA5,"Ll"},{0x2CA6,"Lu"},{0x2CA7,"Ll"},{0x2CA8,"Lu"},{0x2CA9,"Ll"},
{0x2CAA,"Lu"},{0x2CAB,"Ll"},{0x2CAC,"Lu"},{0x2CAD,"Ll"},{0x2CAE,"Lu"},{0x2CAF,"Ll"},{0x2CB0,"Lu"},{0x2CB1,"Ll"},{0x2CB2,"Lu"},{0x2CB3,"Ll"},{0x2CB4,"Lu"},{0x2CB5,"Ll"},
{0x2CB6,"Lu"},{0x2CB7,"Ll"},{0x2CB8,"Lu"},{0x2CB9,"Ll"},{0x2CBA,"Lu"},{0x2CBB,"Ll"},{0x2CBC,"Lu"},{0x2CBD,"Ll"},{0x2CBE,"Lu"},{0x2CBF,"Ll"},{0x2CC0,"Lu"},{0x2CC1,"Ll"},
{0x2CC2,"Lu"},{0x2CC3,"Ll"},{0x2CC4,"Lu"},{0x2CC5,"Ll"},{0x2CC6,"Lu"},{0x2CC7,"Ll"},{0x2CC8,"Lu"},{0x2CC9,"Ll"},{0x2CCA,"Lu"},{0x2CCB,"Ll"},{0x2CCC,"Lu"},{0x2CCD,"Ll"},
{0x2CCE,"Lu"},{0x2CCF,"Ll"},{0x2CD0,"Lu"},{0x2CD1,"Ll"},{0x2CD2,"Lu"},{0x2CD3,"Ll"},{0x2CD4,"Lu"},{0x2CD5,"Ll"},{0x2CD6,"Lu"},{0x2CD7,"Ll"},{0x2CD8,"Lu"},{0x2CD9,"Ll"},
{0x2CDA,"Lu"},{0x2CDB,"Ll"},{0x2CDC,"Lu"},{0x2CDD,"Ll"},{0x2CDE,"Lu"},{0x2CDF,"Ll"},{0x2CE0,"Lu"},{0x2CE1,"Ll"},{0x2CE2,"Lu"},{0x2CE3,"Ll"},{0x2CE5,"So"},{0x2CEB,"Lu"},
{0x2CEC,"Ll"},{0x2CED,"Lu"},{0x2CEE,"Ll"},{0x2CEF,"Mn"},{0x2CF2,"Lu"},{0x2CF3,"Ll"},{0x2CF4,"Cn"},{0x2CF9,"Po"},{0x2CFD,"No"},{0x2CFE,"Po"},{0x2D00,"Ll"},{0x2D26,"Cn"},
{0x2D27,"Ll"},{0x2D28,"Cn"},{0x2D2D,"Ll"},{0x2D2E,"Cn"},{0x2D30,"Lo"},{0x2D68,"Cn"},{0x2D6F,"Lm"},{0x2D70,"Po"},{0x2D71,"Cn"},{0x2D7F,"Mn"},{0x2D80,"Lo"},{0x2D97,"Cn"},
{0x2DA0,"Lo"},{0x2DA7,"Cn"},{0x2DA8,"Lo"},{0x2DAF,"Cn"},{0x2DB0,"Lo"},{0x2DB7,"Cn"},{0x2DB8,"Lo"},{0x2DBF,"Cn"},{0x2DC0,"Lo"},{0x2DC7,"Cn"},{0x2DC8,"Lo"},{0x2DCF,"Cn"},
{0x2DD0,"Lo"},{0x2DD7,"Cn"},{0x2DD8,"Lo"},{0x2DDF,"Cn"},{0x2DE0,"Mn"},{0x2E00,"Po"},{0x2E02,"Pi"},{0x2E03,"Pf"},{0x2E04,"Pi"},{0x2E05,"Pf"},{0x2E06,"Po"},{0x2E09,"Pi"},
{0x2E0A,"Pf"},{0x2E0B,"Po"},{0x2E0C,"Pi"},{0x2E0D,"Pf"},{0x2E0E,"Po"},{0x2E17,"Pd"},{0x2E18,"Po"},{0x2E1A,"Pd"},{0x2E1B,"Po"},{0x2E1C,"Pi"},{0x2E1D,"Pf"},{0x2E1E,"Po"},
{0x2E20,"Pi"},{0x2E21,"Pf"},{0x2E22,"Ps"},{0x2E23,"Pe"},{0x2E24,"Ps"},{0x2E25,"Pe"},{0x2E26,"Ps"},{0x2E27,"Pe"},{0x2E28,"Ps"},{0x2E29,"Pe"},{0x2E2A,"Po"},{0x2E2F,"Lm"},
{0x2E30,"Po"},{0x2E3A,"Pd"},{0x2E3C,"Po"},{0x2E40,"Pd"},{0x2E41,"Po"},{0x2E42,"Ps"},{0x2E43,"Po"},{0x2E50,"So"},{0x2E52,"Po"},{0x2E55,"Ps"},{0x2E56,"Pe"},{0x2E57,"Ps"},
{0x2E58,"Pe"},{0x2E59,"Ps"},{0x2E5A,"Pe"},{0x2E5B,"Ps"},{0x2E5C,"Pe"},{0x2E5D,"Pd"},{0x2E5E,"Cn"},{0x2E80,"So"},{0x2E9A,"Cn"},{0x2E9B,"So"},{0x2EF4,"Cn"},{0x2F00,"So"},
{0x2FD6,"Cn"},{0x2FF0,"So"},{0x2FFC,"Cn"},{0x3000,"Zs"},{0x3001,"Po"},{0x3004,"So"},{0x3005,"Lm"},{0x3006,"Lo"},{0x3007,"Nl"},{0x3008,"Ps"},{0x3009,"Pe"},{0x300A,"Ps"},
{0x300B,"Pe"},{0x300C,"Ps"},{0x300D,"Pe"},{0x300E,"Ps"},{0x300F,"Pe"},{0x3010,"Ps"},{0x3011,"Pe"},{0x3012,"So"},{0x3014,"Ps"},{0x3015,"Pe"},{0x3016,"Ps"},{0x3017,"Pe"},
{0x3018,"Ps"},{0x3019,"Pe"},{0x301A,"Ps"},{0x301B,"Pe"},{0x301C,"Pd"},{0x301D,"Ps"},{0x301E,"Pe"},{0x3020,"So"},{0x3021,"Nl"},{0x302A,"Mn"},{0x302E,"Mc"},{0x3030,"Pd"},
{0x3031,"Lm"},{0x3036,"So"},{0x3038,"Nl"},{0x303B,"Lm"},{0x303C,"Lo"},{0x303D,"Po"},{0x303E,"So"},{0x3040,"Cn"},{0x3041,"Lo"},{0x3097,"Cn"},{0x3099,"Mn"},{0x309B,"Sk"},
{0x309D,"Lm"},{0x309F,"Lo"},{0x30A0,"Pd"},{0x30A1,"Lo"},{0x30FB,"Po"},{0x30FC,"Lm"},{0x30FF,"Lo"},{0x3100,"Cn"},{0x3105,"Lo"},{0x3130,"Cn"},{0x3131,"Lo"},{0x318F,"Cn"},
{0x3190,"So"},{0x3192,"No"},{0x3196,"So"},{0x31A0,"Lo"},{0x31C0,"So"},{0x31E4,"Cn"},{0x31F0,"Lo"},{0x3200,"So"},{0x321F,"Cn"},{0x3220,"No"},{0x322A,"So"},{0x3248,"No"},
{0x3250,"So"},{0x3251,"No"},{0x3260,"So"},{0x3280,"No"},{0x328A,"So"},{0x32B1,"No"},{0x32C0,"So"},{0x3400,"Lo"},{0x4DC0,"So"},{0x4E00,"Lo"},{0xA015,"Lm"},{0xA016,"Lo"},
{0xA48D,"Cn"},{0xA490,"So"},{0xA4C7,"Cn"},{0xA4D0,"Lo"},{0xA4F8,"Lm"},{0xA4FE,"Po"},{0xA500,"Lo"},{0xA60C,"Lm"},{0xA60D,"Po"},{0xA610,"Lo"},{0xA620,"Nd"},{0xA62A,"Lo"},
{0xA62C,"Cn"},{0xA640,"Lu"},{0xA641,"Ll"},{0xA642,"Lu"},{0xA643,"Ll"},{0xA644,"Lu"},{0xA645,"Ll"},{0xA646,"Lu"},{0xA647,"Ll"},{0xA648,"Lu"},{0xA649,"Ll"},{0xA64A,"Lu"},
{0xA64B,"Ll"},{0xA64C,"Lu"},{0xA64D,"Ll"},{0xA64E,"Lu"},{0xA64F,"Ll"},{0xA650,"Lu"},{0xA651,"Ll"},{0xA652,"Lu"},{0xA653,"Ll"},{0xA654,"Lu"},{0xA655,"Ll"},{0xA656,"Lu"},
{0xA657,"Ll"},{0xA658,"Lu"},{0xA659,"Ll"},{0xA65A,"Lu"},{0xA65B,"Ll"},{0xA65C,"Lu"},{0xA65D,"Ll"},{0xA65E,"Lu"},{0xA65F,"Ll"},{0xA660,"Lu"},{0xA661,"Ll"},{0xA662,"Lu"},
{0xA663,"Ll"},{0xA664,"Lu"},{0xA665,"Ll"},{0xA666,"Lu"},{0xA667,"Ll"},{0xA668,"Lu"},{0xA669,"Ll"},{0xA66A,"Lu"},{0xA66B,"Ll"},{0xA66C,"Lu"},{0xA66D,"Ll"},{0xA66E,"Lo"},
{0xA66F,"Mn"},{0xA670,"Me"},{0xA673,"Po"},{0xA674,"Mn"},{0xA67E,"Po"},{0xA67F,"Lm"},{0xA680,"Lu"},{0xA681,"Ll"},{0xA682,"Lu"},{0xA683,"Ll"},{0xA684,"Lu"},{0xA685,"Ll"},
{0xA686,"Lu"},{0xA687,"Ll"},{0xA688,"Lu"},{0xA689,"Ll"},{0xA68A,"Lu"},{0xA68B,"Ll"},{0xA68C,"Lu"},{0xA68D,"Ll"},{0xA68E,"Lu"},{0xA68F,"Ll"},{0xA690,"Lu"},{0xA691,"Ll"},
{0xA692,"Lu"},{0xA693,"Ll"},{0xA694,"Lu"},{0xA695,"Ll"},{0xA696,"Lu"},{0xA697,"Ll"},{0xA698,"Lu"},{0xA699,"Ll"},{0xA69A,"Lu"},{0xA69B,"Ll"},{0xA69C,"Lm"},{0xA69E,"Mn"},
{0xA6A0,"Lo"},{0xA6E6,"Nl"},{0xA6F0,"Mn"},{0xA6F2,"Po"},{0xA6F8,"Cn"},{0xA700,"Sk"},{0xA717,"Lm"},{0xA720,"Sk"},{0xA722,"Lu"},{0xA723,"Ll"},{0xA724,"Lu"},{0xA725,"Ll"},
{0xA726,"Lu"},{0xA727,"Ll"},{0xA728,"Lu"},{0xA729,"Ll"},{0xA72A,"Lu"},{0xA72B,"Ll"},{0xA72C,"Lu"},{0xA72D,"Ll"},{0xA72E,"Lu"},{0xA72F,"Ll"},{0xA732,"Lu"},{0xA733,"Ll"},
{0xA734,"Lu"},{0xA735,"Ll"},{0xA736,"Lu"},{0xA737,"Ll"},{0xA738,"Lu"},{0xA739,"Ll"},{0xA73A,"Lu"},{0xA73B,"Ll"},{0xA73C,"Lu"},{0xA73D,"Ll"},{0xA73E,"Lu"},{0xA73F,"Ll"},
{0xA740,"Lu"},{0xA741,"Ll"},{0xA742,"Lu"},{0xA743,"Ll"},{0xA744,"Lu"},{0xA745,"Ll"},{0xA746,"Lu"},{0xA747,"Ll"},{0xA748,"Lu"},{0xA749,"Ll"},{0xA74A,"Lu"},{0xA74B,"Ll"},
{0xA74C,"Lu"},{0xA74D,"Ll"},{0xA74E,"Lu"},{0xA74F,"Ll"},{0xA750,"Lu"},{0xA751,"Ll"},{0xA752,"Lu"},{0xA753,"Ll"},{0xA754,"Lu"},{0xA755,"Ll"},{0xA756,"Lu"},{0xA757,"Ll"},
{0xA758,"Lu"},{0xA759,"Ll"},{0xA75A,"Lu"},{0xA75B,"Ll"},{0xA75C,"Lu"},{0xA75D,"Ll"},{0xA75E,"Lu"},{0xA75F,"Ll"},{0xA760,"Lu"},{0xA761,"Ll"},{0xA762,"Lu"},{0xA763,"Ll"},
{0xA764,"Lu"},{0xA765,"Ll"},{0xA766,"Lu"},{0xA767,"Ll"},{0xA768,"Lu"},{0xA769,"Ll"},{0xA76A,"Lu"},{0xA76B,"Ll"},{0xA76C,"Lu"},{0xA76D,"Ll"},{0xA76E,"Lu"},{0xA76F,"Ll"},
{0xA770,"Lm"},{0xA771,"Ll"},{0xA779,"Lu"},{0xA77A,"Ll"},{0xA77B,"Lu"},{0xA77C,"Ll"},{0xA77D,"Lu"},{0xA77F,"Ll"},{0xA780,"Lu"},{0xA781,"Ll"},{0xA782,"Lu"},{0xA783,"Ll"},
{0xA784,"Lu"},{0xA785,"Ll"},{0xA786,"Lu"},{0xA787,"Ll"},{0xA788,"Lm"},{0xA789,"Sk"},{0xA78B,"Lu"},{0xA78C,"Ll"},{0xA78D,"Lu"},{0xA78E,"Ll"},{0xA78F,"Lo"},{0xA790,"Lu"},
{0xA791,"Ll"},{0xA792,"Lu"},{0xA793,"Ll"},{0xA796,"Lu"},{0xA797,"Ll"},{0xA798,"Lu"},{0xA799,"Ll"},{0xA79A,"Lu"},{0xA79B,"Ll"},{0xA79C,"Lu"},{0xA79D,"Ll"},{0xA79E,"Lu"},
{0xA79F,"Ll"},{0xA7A0,"Lu"},{0xA7A1,"Ll"},{0xA7A2,"Lu"},{0xA7A3,"Ll"},{0xA7A4,"Lu"},{0xA7A5,"Ll"},{0xA7A6,"Lu"},{0xA7A7,"Ll"},{0xA7A8,"Lu"},{0xA7A9,"Ll"},{0xA7AA,"Lu"},
{0xA7AF,"Ll"},{0xA7B0,"Lu"},{0xA7B5,"Ll"},{0xA7B6,"Lu"},{0xA7B7,"Ll"},{0xA7B8,"Lu"},{0xA7B9,"Ll"},{0xA7BA,"Lu"},{0xA7BB,"Ll"},{0xA7BC,"Lu"},{0xA7BD,"Ll"},{0xA7BE,"Lu"},
{0xA7BF,"Ll"},{0xA7C0,"Lu"},{0xA7C1,"Ll"},{0xA7C2,"Lu"},{0xA7C3,"Ll"},{0xA7C4,"Lu"},{0xA7C8,"Ll"},{0xA7C9,"Lu"},{0xA7CA,"Ll"},{0xA7CB,"Cn"},{0xA7D0,"Lu"},{0xA7D1,"Ll"},
{0xA7D2,"Cn"},{0xA7D3,"Ll"},{0xA7D4,"Cn"},{0xA7D5,"Ll"},{0xA7D6,"Lu"},{0xA7D7,"Ll"},{0xA7D8,"Lu"},{0xA7D9,"Ll"},{0xA7DA,"Cn"},{0xA7F2,"Lm"},{0xA7F5,"Lu"},{0xA7F6,"Ll"},
{0xA7F7,"Lo"},{0xA7F8,"Lm"},{0xA7FA,"Ll"},{0xA7FB,"Lo"},{0xA802,"Mn"},{0xA803,"Lo"},{0xA806,"Mn"},{0xA807,"Lo"},{0xA80B,"Mn"},{0xA80C,"Lo"},{0xA823,"Mc"},{0xA825,"Mn"},
{0xA827,"Mc"},{0xA828,"So"},{0xA82C,"Mn"},{0xA82D,"Cn"},{0xA830,"No"},{0xA836,"So"},{0xA838,"Sc"},{0xA839,"So"},{0xA83A,"Cn"},{0xA840,"Lo"},{0xA874,"Po"},{0xA878,"Cn"},
{0xA880,"Mc"},{0xA882,"Lo"},{0xA8B4,"Mc"},{0xA8C4,"Mn"},{0xA8C6,"Cn"},{0xA8CE,"Po"},{0xA8D0,"Nd"},{0xA8DA,"Cn"},{0xA8E0,"Mn"},{0xA8F2,"Lo"},{0xA8F8,"Po"},{0xA8FB,"Lo"},
{0xA8FC,"Po"},{0xA8FD,"Lo"},{0xA8FF,"Mn"},{0xA900,"Nd"},{0xA90A,"Lo"},{0xA926,"Mn"},{0xA92E,"Po"},{0xA930,"Lo"},{0xA947,"Mn"},{0xA952,"Mc"},{0xA954,"Cn"},{0xA95F,"Po"},
{0xA960,"Lo"},{0xA97D,"Cn"},{0xA980,"Mn"},{0xA983,"Mc"},{0xA984,"Lo"},{0xA9B3,"Mn"},{0xA9B4,"Mc"},{0xA9B6,"Mn"},{0xA9BA,"Mc"},{0xA9BC,"Mn"},{0xA9BE,"Mc"},{0xA9C1,"Po"},
{0xA9CE,"Cn"},{0xA9CF,"Lm"},{0xA9D0,"Nd"},{0xA9DA,"Cn"},{0xA9DE,"Po"},{0xA9E0,"Lo"},{0xA9E5,"Mn"},{0xA9E6,"Lm"},{0xA9E7,"Lo"},{0xA9F0,"Nd"},{0xA9FA,"Lo"},{0xA9FF,"Cn"},
{0xAA00,"Lo"},{0xAA29,"Mn"},{0xAA2F,"Mc"},{0xAA31,"Mn"},{0xAA33,"Mc"},{0xAA35,"Mn"},{0xAA37,"Cn"},{0xAA40,"Lo"},{0xAA43,"Mn"},{0xAA44,"Lo"},{0xAA4C,"Mn"},{0xAA4D,"Mc"},
{0xAA4E,"Cn"},{0xAA50,"Nd"},{0xAA5A,"Cn"},{0xAA5C,"Po"},{0xAA60,"Lo"},{0xAA70,"Lm"},{0xAA71,"Lo"},{0xAA77,"So"},{0xAA7A,"Lo"},{0xAA7B,"Mc"},{0xAA7C,"Mn"},{0xAA7D,"Mc"},
{0xAA7E,"Lo"},{0xAAB0,"Mn"},{0xAAB1,"Lo"},{0xAAB2,"Mn"},{0xAAB5,"Lo"},{0xAAB7,"Mn"},{0xAAB9,"Lo"},{0xAABE,"Mn"},{0xAAC0,"Lo"},{0xAAC1,"Mn"},{0xAAC2,"Lo"},{0xAAC3,"Cn"},
{0xAADB,"Lo"},{0xAADD,"Lm"},{0xAADE,"Po"},{0xAAE0,"Lo"},{0xAAEB,"Mc"},{0xAAEC,"Mn"},{0xAAEE,"Mc"},{0xAAF0,"Po"},{0xAAF2,"Lo"},{0xAAF3,"Lm"},{0xAAF5,"Mc"},{0xAAF6,"Mn"},
{0xAAF7,"Cn"},{0xAB01,"Lo"},{0xAB07,"Cn"},{0xAB09,"Lo"},{0xAB0F,"Cn"},{0xAB11,"Lo"},{0xAB17,"Cn"},{0xAB20,"Lo"},{0xAB27,"Cn"},{0xAB28,"Lo"},{0xAB2F,"Cn"},{0xAB30,"Ll"},
{0xAB5B,"Sk"},{0xAB5C,"Lm"},{0xAB60,"Ll"},{0xAB69,"Lm"},{0xAB6A,"Sk"},{0xAB6C,"Cn"},{0xAB70,"Ll"},{0xABC0,"Lo"},{0xABE3,"Mc"},{0xABE5,"Mn"},{0xABE6,"Mc"},{0xABE8,"Mn"},
{0xABE9,"Mc"},{0xABEB,"Po"},{0xABEC,"Mc"},{0xABED,"Mn"},{0xABEE,"Cn"},{0xABF0,"Nd"},{0xABFA,"Cn"},{0xAC00,"Lo"},{0xD7A4,"Cn"},{0xD7B0,"Lo"},{0xD7C7,"Cn"},{0xD7CB,"Lo"},
{0xD7FC,"Cn"},{0xD800,"Cs"},{0xE000,"Co"},{0xF900,"Lo"},{0xFA6E,"Cn"},{0xFA70,"Lo"},{0xFADA,"Cn"},{0xFB00,"Ll"},{0xFB07,"Cn"},{0xFB13,"Ll"},{0xFB18,"Cn"},{0xFB1D,"Lo"},
{0xFB1E,"Mn"},{0xFB1F,"Lo"},{0xFB29,"Sm"},{0xFB2A,"Lo"},{0xFB37,"Cn"},{0xFB38,"Lo"},{0xFB3D,"Cn"},{0xFB3E,"Lo"},{0xFB3F,"Cn"},{0xFB40,"Lo"},{0xFB42,"Cn"},{0xFB43,"Lo"},
{0xFB45,"Cn"},{0xFB46,"Lo"},{0xFBB2,"Sk"},{0xFBC3,"Cn"},{0xFBD3,"Lo"},{0xFD3E,"Pe"},{0xFD3F,"Ps"},{0xFD40,"So"},{0xFD50,"Lo"},{0xFD90,"Cn"},{0xFD92,"Lo"},{0xFDC8,"Cn"},
{0xFDCF,"So"},{0xFDD0,"Cn"},{0xFDF0,"Lo"},{0xFDFC,"Sc"},{0xFDFD,"So"},{0xFE00,"Mn"},{0xFE10,"Po"},{0xFE17,"Ps"},{0xFE18,"Pe"},{0xFE19,"Po"},{0xFE1A,"Cn"},{0xFE20,"Mn"},
{0xFE30,"Po"},{0xFE31,"Pd"},{0xFE33,"Pc"},{0xFE35,"Ps"},{0xFE36,"Pe"},{0xFE37,"Ps"},{0xFE38,"Pe"},{0xFE39,"Ps"},{0xFE3A,"Pe"},{0xFE3B,"Ps"},{0xFE3C,"Pe"},{0xFE3D,"Ps"},
{0xFE3E,"Pe"},{0xFE3F,"Ps"},{0xFE40,"Pe"},{0xFE41,"Ps"},{0xFE42,"Pe"},{0xFE43,"Ps"},{0xFE44,"Pe"},{0xFE45,"Po"},{0xFE47,"Ps"},{0xFE48,"Pe"},{0xFE49,"Po"},{0xFE4D,"Pc"},
{0xFE50,"Po"},{0xFE53,"Cn"},{0xFE54,"Po"},{0xFE58,"Pd"},{0xFE59,"Ps"},{0xFE5A,"Pe"},{0xFE5B,"Ps"},{0xFE5C,"Pe"},{0xFE5D,"Ps"},{0xFE5E,"Pe"},{0xFE5F,"Po"},{0xFE62,"Sm"},
{0xFE63,"Pd"},{0xFE64,"Sm"},{0xFE67,"Cn"},{0xFE68,"Po"},{0xFE69,"Sc"},{0xFE6A,"Po"},{0xFE6C,"Cn"},{0xFE70,"Lo"},{0xFE75,"Cn"},{0xFE76,"Lo"},{0xFEFD,"Cn"},{0xFEFF,"Cf"},
{0xFF00,"Cn"},{0xFF01,"Po"},{0xFF04,"Sc"},{0xFF05,"Po"},{0xFF08,"Ps"},{0xFF09,"Pe"},{0xFF0A,"Po"},{0xFF0B,"Sm"},{0xFF0C,"Po"},{0xFF0D,"Pd"},{0xFF0E,"Po"},{0xFF10,"Nd"},
{0xFF1A,"Po"},{0xFF1C,"Sm"},{0xFF1F,"Po"},{0xFF21,"Lu"},{0xFF3B,"Ps"},{0xFF3C,"Po"},{0xFF3D,"Pe"},{0xFF3E,"Sk"},{0xFF3F,"Pc"},{0xFF40,"Sk"},{0xFF41,"Ll"},{0xFF5B,"Ps"},
{0xFF5C,"Sm"},{0xFF5D,"Pe"},{0xFF5E,"Sm"},{0xFF5F,"Ps"},{0xFF60,"Pe"},{0xFF61,"Po"},{0xFF62,"Ps"},{0xFF63,"Pe"},{0xFF64,"Po"},{0xFF66,"Lo"},{0xFF70,"Lm"},{0xFF71,"Lo"},
{0xFF9E,"Lm"},{0xFFA0,"Lo"},{0xFFBF,"Cn"},{0xFFC2,"Lo"},{0xFFC8,"Cn"},{0xFFCA,"Lo"},{0xFFD0,"Cn"},{0xFFD2,"Lo"},{0xFFD8,"Cn"},{0xFFDA,"Lo"},{0xFFDD,"Cn"},{0xFFE0,"Sc"},
{0xFFE2,"Sm"},{0xFFE3,"Sk"},{0xFFE4,"So"},{0xFFE5,"Sc"},{0xFFE7,"Cn"},{0xFFE8,"So"},{0xFFE9,"Sm"},{0xFFED,"So"},{0xFFEF,"Cn"},{0xFFF9,"Cf"},{0xFFFC,"So"},{0xFFFE,"Cn"},
{0x10000,"Lo"},{0x1000C,"Cn"},{0x1000D,"Lo"},{0x10027,"Cn"},{0x10028,"Lo"},{0x1003B,"Cn"},{0x1003C,"Lo"},{0x1003E,"Cn"},{0x1003F,"Lo"},{0x1004E,"Cn"},{0x10050,"Lo"},{0x1005E,"Cn"},
{0x10080,"Lo"},{0x100FB,"Cn"},{0x10100,"Po"},{0x10103,"Cn"},{0x10107,"No"},{0x10134,"Cn"},{0x10137,"So"},{0x10140,"Nl"},{0x10175,"No"},{0x10179,"So"},{0x1018A,"No"},{0x1018C,"So"},
{0x1018F,"Cn"},{0x10190,"So"},{0x1019D,"Cn"},{0x101A0,"So"},{0x101A1,"Cn"},{0x101D0,"So"},{0x101FD,"Mn"},{0x101FE,"Cn"},{0x10280,"Lo"},{0x1029D,"Cn"},{0x102A0,"Lo"},{0x102D1,"Cn"},
{0x102E0,"Mn"},{0x102E1,"No"},{0x102FC,"Cn"},{0x10300,"Lo"},{0x10320,"No"},{0x10324,"Cn"},{0x1032D,"Lo"},{0x10341,"Nl"},{0x10342,"Lo"},{0x1034A,"Nl"},{0x1034B,"Cn"},{0x10350,"Lo"},
{0x10376,"Mn"},{0x1037B,"Cn"},{0x10380,"Lo"},{0x1039E,"Cn"},{0x1039F,"Po"},{0x103A0,"Lo"},{0x103C4,"Cn"},{0x103C8,"Lo"},{0x103D0,"Po"},{0x103D1,"Nl"},{0x103D6,"Cn"},{0x10400,"Lu"},
{0x10428,"Ll"},{0x10450,"Lo"},{0x1049E,"Cn"},{0x104A0,"Nd"},{0x104AA,"Cn"},{0x104B0,"Lu"},{0x104D4,"Cn"},{0x104D8,"Ll"},{0x104FC,"Cn"},{0x10500,"Lo"},{0x10528,"Cn"},{0x10530,"Lo"},
{0x10564,"Cn"},{0x1056F,"Po"},{0x10570,"Lu"},{0x1057B,"Cn"},{0x1057C,"Lu"},{0x1058B,"Cn"},{0x1058C,"Lu"},{0x10593,"Cn"},{0x10594,"Lu"},{0x10596,"Cn"},{0x10597,"Ll"},{0x105A2,"Cn"},
{0x105A3,"Ll"},{0x105B2,"Cn"},{0x105B3,"Ll"},{0x105BA,"Cn"},{0x105BB,"Ll"},{0x105BD,"Cn"},{0x10600,"Lo"},{0x10737,"Cn"},{0x10740,"Lo"},{0x10756,"Cn"},{0x10760,"Lo"},{0x10768,"Cn"},
{0x10780,"Lm"},{0x10786,"Cn"},{0x10787,"Lm"},{0x107B1,"Cn"},{0x107B2,"Lm"},{0x107BB,"Cn"},{0x10800,"Lo"},{0x10806,"Cn"},{0x10808,"Lo"},{0x10809,"Cn"},{0x1080A,"Lo"},{0x10836,"Cn"},
{0x10837,"Lo"},{0x10839,"Cn"},{0x1083C,"Lo"},{0x1083D,"Cn"},{0x1083F,"Lo"},{0x10856,"Cn"},{0x10857,"Po"},{0x10858,"No"},{0x10860,"Lo"},{0x10877,"So"},{0x10879,"No"},{0x10880,"Lo"},
{0x1089F,"Cn"},{0x108A7,"No"},{0x108B0,"Cn"},{0x108E0,"Lo"},{0x108F3,"Cn"},{0x108F4,"Lo"},{0x108F6,"Cn"},{0x108FB,"No"},{0x10900,"Lo"},{0x10916,"No"},{0x1091C,"Cn"},{0x1091F,"Po"},
{0x10920,"Lo"},{0x1093A,"Cn"},{0x1093F,"Po"},{0x10940,"Cn"},{0x10980,"Lo"},{0x109B8,"Cn"},{0x109BC,"No"},{0x109BE,"Lo"},{0x109C0,"No"},{0x109D0,"Cn"},{0x109D2,"No"},{0x10A00,"Lo"},
{0x10A01,"Mn"},{0x10A04,"Cn"},{0x10A05,"Mn"},{0x10A07,"Cn"},{0x10A0C,"Mn"},{0x10A10,"Lo"},{0x10A14,"Cn"},{0x10A15,"Lo"},{0x10A18,"Cn"},{0x10A19,"Lo"},{0x10A36,"Cn"},{0x10A38,"Mn"},
{0x10A3B,"Cn"},{0x10A3F,"Mn"},{0x10A40,"No"},{0x10A49,"Cn"},{0x10A50,"Po"},{0x10A59,"Cn"},{0x10A60,"Lo"},{0x10A7D,"No"},{0x10A7F,"Po"},{0x10A80,"Lo"},{0x10A9D,"No"},{0x10AA0,"Cn"},
{0x10AC0,"Lo"},{0x10AC8,"So"},{0x10AC9,"Lo"},{0x10AE5,"Mn"},{0x10AE7,"Cn"},{0x10AEB,"No"},{0x10AF0,"Po"},{0x10AF7,"Cn"},{0x10B00,"Lo"},{0x10B36,"Cn"},{0x10B39,"Po"},{0x10B40,"Lo"},
{0x10B56,"Cn"},{0x10B58,"No"},{0x10B60,"Lo"},{0x10B73,"Cn"},{0x10B78,"No"},{0x10B80,"Lo"},{0x10B92,"Cn"},{0x10B99,"Po"},{0x10B9D,"Cn"},{0x10BA9,"No"},{0x10BB0,"Cn"},{0x10C00,"Lo"},
{0x10C49,"Cn"},{0x10C80,"Lu"},{0x10CB3,"Cn"},{0x10CC0,"Ll"},{0x10CF3,"Cn"},{0x10CFA,"No"},{0x10D00,"Lo"},{0x10D24,"Mn"},{0x10D28,"Cn"},{0x10D30,"Nd"},{0x10D3A,"Cn"},{0x10E60,"No"},
{0x10E7F,"Cn"},{0x10E80,"Lo"},{0x10EAA,"Cn"},{0x10EAB,"Mn"},{0x10EAD,"Pd"},{0x10EAE,"Cn"},{0x10EB0,"Lo"},{0x10EB2,"Cn"},{0x10EFD,"Mn"},{0x10F00,"Lo"},{0x10F1D,"No"},{0x10F27,"Lo"},
{0x10F28,"Cn"},{0x10F30,"Lo"},{0x10F46,"Mn"},{0x10F51,"No"},{0x10F55,"Po"},{0x10F5A,"Cn"},{0x10F70,"Lo"},{0x10F82,"Mn"},{0x10F86,"Po"},{0x10F8A,"Cn"},{0x10FB0,"Lo"},{0x10FC5,"No"},
{0x10FCC,"Cn"},{0x10FE0,"Lo"},{0x10FF7,"Cn"},{0x11000,"Mc"},{0x11001,"Mn"},{0x11002,"Mc"},{0x11003,"Lo"},{0x11038,"Mn"},{0x11047,"Po"},{0x1104E,"Cn"},{0x11052,"No"},{0x11066,"Nd"},
{0x11070,"Mn"},{0x11071,"Lo"},{0x11073,"Mn"},{0x11075,"Lo"},{0x11076,"Cn"},{0x1107F,"Mn"},{0x11082,"Mc"},{0x11083,"Lo"},{0x110B0,"Mc"},{0x110B3,"Mn"},{0x110B7,"Mc"},{0x110B9,"Mn"},
{0x110BB,"Po"},{0x110BD,"Cf"},{0x110BE,"Po"},{0x110C2,"Mn"},{0x110C3,"Cn"},{0x110CD,"Cf"},{0x110CE,"Cn"},{0x110D0,"Lo"},{0x110E9,"Cn"},{0x110F0,"Nd"},{0x110FA,"Cn"},{0x11100,"Mn"},
{0x11103,"Lo"},{0x11127,"Mn"},{0x1112C,"Mc"},{0x1112D,"Mn"},{0x11135,"Cn"},{0x11136,"Nd"},{0x11140,"Po"},{0x11144,"Lo"},{0x11145,"Mc"},{0x11147,"Lo"},{0x11148,"Cn"},{0x11150,"Lo"},
{0x11173,"Mn"},{0x11174,"Po"},{0x11176,"Lo"},{0x11177,"Cn"},{0x11180,"Mn"},{0x11182,"Mc"},{0x11183,"Lo"},{0x111B3,"Mc"},{0x111B6,"Mn"},{0x111BF,"Mc"},{0x111C1,"Lo"},{0x111C5,"Po"},
{0x111C9,"Mn"},{0x111CD,"Po"},{0x111CE,"Mc"},{0x111CF,"Mn"},{0x111D0,"Nd"},{0x111DA,"Lo"},{0x111DB,"Po"},{0x111DC,"Lo"},{0x111DD,"Po"},{0x111E0,"Cn"},{0x111E1,"No"},{0x111F5,"Cn"},
{0x11200,"Lo"},{0x11212,"Cn"},{0x11213,"Lo"},{0x1122C,"Mc"},{0x1122F,"Mn"},{0x11232,"Mc"},{0x11234,"Mn"},{0x11235,"Mc"},{0x11236,"Mn"},{0x11238,"Po"},{0x1123E,"Mn"},{0x1123F,"Lo"},
{0x11241,"Mn"},{0x11242,"Cn"},{0x11280,"Lo"},{0x11287,"Cn"},{0x11288,"Lo"},{0x11289,"Cn"},{0x1128A,"Lo"},{0x1128E,"Cn"},{0x1128F,"Lo"},{0x1129E,"Cn"},{0x1129F,"Lo"},{0x112A9,"Po"},
{0x112AA,"Cn"},{0x112B0,"Lo"},{0x112DF,"Mn"},{0x112E0,"Mc"},{0x112E3,"Mn"},{0x112EB,"Cn"},{0x112F0,"Nd"},{0x112FA,"Cn"},{0x11300,"Mn"},{0x11302,"Mc"},{0x11304,"Cn"},{0x11305,"Lo"},
{0x1130D,"Cn"},{0x1130F,"Lo"},{0x11311,"Cn"},{0x11313,"Lo"},{0x11329,"Cn"},{0x1132A,"Lo"},{0x11331,"Cn"},{0x11332,"Lo"},{0x11334,"Cn"},{0x11335,"Lo"},{0x1133A,"Cn"},{0x1133B,"Mn"},
{0x1133D,"Lo"},{0x1133E,"Mc"},{0x11340,"Mn"},{0x11341,"Mc"},{0x11345,"Cn"},{0x11347,"Mc"},{0x11349,"Cn"},{0x1134B,"Mc"},{0x1134E,"Cn"},{0x11350,"Lo"},{0x11351,"Cn"},{0x11357,"Mc"},
{0x11358,"Cn"},{0x1135D,"Lo"},{0x11362,"Mc"},{0x11364,"Cn"},{0x11366,"Mn"},{0x1136D,"Cn"},{0x11370,"Mn"},{0x11375,"Cn"},{0x11400,"Lo"},{0x11435,"Mc"},{0x11438,"Mn"},{0x11440,"Mc"},
{0x11442,"Mn"},{0x11445,"Mc"},{0x11446,"Mn"},{0x11447,"Lo"},{0x1144B,"Po"},{0x11450,"Nd"},{0x1145A,"Po"},{0x1145C,"Cn"},{0x1145D,"Po"},{0x1145E,"Mn"},{0x1145F,"Lo"},{0x11462,"Cn"},
{0x11480,"Lo"},{0x114B0,"Mc"},{0x114B3,"Mn"},{0x114B9,"Mc"},{0x114BA,"Mn"},{0x114BB,"Mc"},{0x114BF,"Mn"},{0x114C1,"Mc"},{0x114C2,"Mn"},{0x114C4,"Lo"},{0x114C6,"Po"},{0x114C7,"Lo"},
{0x114C8,"Cn"},{0x114D0,"Nd"},{0x114DA,"Cn"},{0x11580,"Lo"},{0x115AF,"Mc"},{0x115B2,"Mn"},{0x115B6,"Cn"},{0x115B8,"Mc"},{0x115BC,"Mn"},{0x115BE,"Mc"},{0x115BF,"Mn"},{0x115C1,"Po"},
{0x115D8,"Lo"},{0x115DC,"Mn"},{0x115DE,"Cn"},{0x11600,"Lo"},{0x11630,"Mc"},{0x11633,"Mn"},{0x1163B,"Mc"},{0x1163D,"Mn"},{0x1163E,"Mc"},{0x1163F,"Mn"},{0x11641,"Po"},{0x11644,"Lo"},
{0x11645,"Cn"},{0x11650,"Nd"},{0x1165A,"Cn"},{0x11660,"Po"},{0x1166D,"Cn"},{0x11680,"Lo"},{0x116AB,"Mn"},{0x116AC,"Mc"},{0x116AD,"Mn"},{0x116AE,"Mc"},{0x116B0,"Mn"},{0x116B6,"Mc"},
{0x116B7,"Mn"},{0x116B8,"Lo"},{0x116B9,"Po"},{0x116BA,"Cn"},{0x116C0,"Nd"},{0x116CA,"Cn"},{0x11700,"Lo"},{0x1171B,"Cn"},{0x1171D,"Mn"},{0x11720,"Mc"},{0x11722,"Mn"},{0x11726,"Mc"},
{0x11727,"Mn"},{0x1172C,"Cn"},{0x11730,"Nd"},{0x1173A,"No"},{0x1173C,"Po"},{0x1173F,"So"},{0x11740,"Lo"},{0x11747,"Cn"},{0x11800,"Lo"},{0x1182C,"Mc"},{0x1182F,"Mn"},{0x11838,"Mc"},
{0x11839,"Mn"},{0x1183B,"Po"},{0x1183C,"Cn"},{0x118A0,"Lu"},{0x118C0,"Ll"},{0x118E0,"Nd"},{0x118EA,"No"},{0x118F3,"Cn"},{0x118FF,"Lo"},{0x11907,"Cn"},{0x11909,"Lo"},{0x1190A,"Cn"},
{0x1190C,"Lo"},{0x11914,"Cn"},{0x11915,"Lo"},{0x11917,"Cn"},{0x11918,"Lo"},{0x11930,"Mc"},{0x11936,"Cn"},{0x11937,"Mc"},{0x11939,"Cn"},{0x1193B,"Mn"},{0x1193D,"Mc"},{0x1193E,"Mn"},
{0x1193F,"Lo"},{0x11940,"Mc"},{0x11941,"Lo"},{0x11942,"Mc"},{0x11943,"Mn"},{0x11944,"Po"},{0x11947,"Cn"},{0x11950,"Nd"},{0x1195A,"Cn"},{0x119A0,"Lo"},{0x119A8,"Cn"},{0x119AA,"Lo"},
{0x119D1,"Mc"},{0x119D4,"Mn"},{0x119D8,"Cn"},{0x119DA,"Mn"},{0x119DC,"Mc"},{0x119E0,"Mn"},{0x119E1,"Lo"},{0x119E2,"Po"},{0x119E3,"Lo"},{0x119E4,"Mc"},{0x119E5,"Cn"},{0x11A00,"Lo"},
{0x11A01,"Mn"},{0x11A0B,"Lo"},{0x11A33,"Mn"},{0x11A39,"Mc"},{0x11A3A,"Lo"},{0x11A3B,"Mn"},{0x11A3F,"Po"},{0x11A47,"Mn"},{0x11A48,"Cn"},{0x11A50,"Lo"},{0x11A51,"Mn"},{0x11A57,"Mc"},
{0x11A59,"Mn"},{0x11A5C,"Lo"},{0x11A8A,"Mn"},{0x11A97,"Mc"},{0x11A98,"Mn"},{0x11A9A,"Po"},{0x11A9D,"Lo"},{0x11A9E,"Po"},{0x11AA3,"Cn"},{0x11AB0,"Lo"},{0x11AF9,"Cn"},{0x11B00,"Po"},
{0x11B0A,"Cn"},{0x11C00,"Lo"},{0x11C09,"Cn"},{0x11C0A,"Lo"},{0x11C2F,"Mc"},{0x11C30,"Mn"},{0x11C37,"Cn"},{0x11C38,"Mn"},{0x11C3E,"Mc"},{0x11C3F,"Mn"},{0x11C40,"Lo"},{0x11C41,"Po"},
{0x11C46,"Cn"},{0x11C50,"Nd"},{0x11C5A,"No"},{0x11C6D,"Cn"},{0x11C70,"Po"},{0x11C72,"Lo"},{0x11C90,"Cn"},{0x11C92,"Mn"},{0x11CA8,"Cn"},{0x11CA9,"Mc"},{0x11CAA,"Mn"},{0x11CB1,"Mc"},
{0x11CB2,"Mn"},{0x11CB4,"Mc"},{0x11CB5,"Mn"},{0x11CB7,"Cn"},{0x11D00,"Lo"},{0x11D07,"Cn"},{0x11D08,"Lo"},{0x11D0A,"Cn"},{0x11D0B,"Lo"},{0x11D31,"Mn"},{0x11D37,"Cn"},{0x11D3A,"Mn"},
{0x11D3B,"Cn"},{0x11D3C,"Mn"},{0x11D3E,"Cn"},{0x11D3F,"Mn"},{0x11D46,"Lo"},{0x11D47,"Mn"},{0x11D48,"Cn"},{0x11D50,"Nd"},{0x11D5A,"Cn"},{0x11D60,"Lo"},{0x11D66,"Cn"},{0x11D67,"Lo"},
{0x11D69,"Cn"},{0x11D6A,"Lo"},{0x11D8A,"Mc"},{0x11D8F,"Cn"},{0x11D90,"Mn"},{0x11D92,"Cn"},{0x11D93,"Mc"},{0x11D95,"Mn"},{0x11D96,"Mc"},{0x11D97,"Mn"},{0x11D98,"Lo"},{0x11D99,"Cn"},
{0x11DA0,"Nd"},{0x11DAA,"Cn"},{0x11EE0,"Lo"},{0x11EF3,"Mn"},{0x11EF5,"Mc"},{0x11EF7,"Po"},{0x11EF9,"Cn"},{0x11F00,"Mn"},{0x11F02,"Lo"},{0x11F03,"Mc"},{0x11F04,"Lo"},{0x11F11,"Cn"},
{0x11F12,"Lo"},{0x11F34,"Mc"},{0x11F36,"Mn"},{0x11F3B,"Cn"},{0x11F3E,"Mc"},{0x11F40,"Mn"},{0x11F41,"Mc"},{0x11F42,"Mn"},{0x11F43,"Po"},{0x11F50,"Nd"},{0x11F5A,"Cn"},{0x11FB0,"Lo"},
{0x11FB1,"Cn"},{0x11FC0,"No"},{0x11FD5,"So"},{0x11FDD,"Sc"},{0x11FE1,"So"},{0x11FF2,"Cn"},{0x11FFF,"Po"},{0x12000,"Lo"},{0x1239A,"Cn"},{0x12400,"Nl"},{0x1246F,"Cn"},{0x12470,"Po"},
{0x12475,"Cn"},{0x12480,"Lo"},{0x12544,"Cn"},{0x12F90,"Lo"},{0x12FF1,"Po"},{0x12FF3,"Cn"},{0x13000,"Lo"},{0x13430,"Cf"},{0x13440,"??"},{0x13441,"Lo"},{0x13447,"Mn"},{0x13456,"Cn"},
{0x14400,"Lo"},{0x14647,"Cn"},{0x16800,"Lo"},{0x16A39,"Cn"},{0x16A40,"Lo"},{0x16A5F,"Cn"},{0x16A60,"Nd"},{0x16A6A,"Cn"},{0x16A6E,"Po"},{0x16A70,"Lo"},{0x16ABF,"Cn"},{0x16AC0,"Nd"},
{0x16ACA,"Cn"},{0x16AD0,"Lo"},{0x16AEE,"Cn"},{0x16AF0,"Mn"},{0x16AF5,"Po"},{0x16AF6,"Cn"},{0x16B00,"Lo"},{0x16B30,"Mn"},{0x16B37,"Po"},{0x16B3C,"So"},{0x16B40,"Lm"},{0x16B44,"Po"},
{0x16B45,"So"},{0x16B46,"Cn"},{0x16B50,"Nd"},{0x16B5A,"Cn"},{0x16B5B,"No"},{0x16B62,"Cn"},{0x16B63,"Lo"},{0x16B78,"Cn"},{0x16B7D,"Lo"},{0x16B90,"Cn"},{0x16E40,"Lu"},{0x16E60,"Ll"},
{0x16E80,"No"},{0x16E97,"Po"},{0x16E9B,"Cn"},{0x16F00,"Lo"},{0x16F4B,"Cn"},{0x16F4F,"Mn"},{0x16F50,"Lo"},{0x16F51,"Mc"},{0x16F88,"Cn"},{0x16F8F,"Mn"},{0x16F93,"Lm"},{0x16FA0,"Cn"},
{0x16FE0,"Lm"},{0x16FE2,"Po"},{0x16FE3,"Lm"},{0x16FE4,"Mn"},{0x16FE5,"Cn"},{0x16FF0,"Mc"},{0x16FF2,"Cn"},{0x17000,"Lo"},{0x187F8,"Cn"},{0x18800,"Lo"},{0x18CD6,"Cn"},{0x18D00,"Lo"},
{0x18D09,"Cn"},{0x1AFF0,"Lm"},{0x1AFF4,"Cn"},{0x1AFF5,"Lm"},{0x1AFFC,"Cn"},{0x1AFFD,"Lm"},{0x1AFFF,"Cn"},{0x1B000,"Lo"},{0x1B123,"Cn"},{0x1B132,"Lo"},{0x1B133,"Cn"},{0x1B150,"Lo"},
{0x1B153,"Cn"},{0x1B155,"Lo"},{0x1B156,"Cn"},{0x1B164,"Lo"},{0x1B168,"Cn"},{0x1B170,"Lo"},{0x1B2FC,"Cn"},{0x1BC00,"Lo"},{0x1BC6B,"Cn"},{0x1BC70,"Lo"},{0x1BC7D,"Cn"},{0x1BC80,"Lo"},
{0x1BC89,"Cn"},{0x1BC90,"Lo"},{0x1BC9A,"Cn"},{0x1BC9C,"So"},{0x1BC9D,"Mn"},{0x1BC9F,"Po"},{0x1BCA0,"Cf"},{0x1BCA4,"Cn"},{0x1CF00,"Mn"},{0x1CF2E,"Cn"},{0x1CF30,"Mn"},{0x1CF47,"Cn"},
{0x1CF50,"So"},{0x1CFC4,"Cn"},{0x1D000,"So"},{0x1D0F6,"Cn"},{0x1D100,"So"},{0x1D127,"Cn"},{0x1D129,"So"},{0x1D165,"Mc"},{0x1D167,"Mn"},{0x1D16A,"So"},{0x1D16D,"Mc"},{0x1D173,"Cf"},
{0x1D17B,"Mn"},{0x1D183,"So"},{0x1D185,"Mn"},{0x1D18C,"So"},{0x1D1AA,"Mn"},{0x1D1AE,"So"},{0x1D1EB,"Cn"},{0x1D200,"So"},{0x1D242,"Mn"},{0x1D245,"So"},{0x1D246,"Cn"},{0x1D2C0,"No"},
{0x1D2D4,"Cn"},{0x1D2E0,"No"},{0x1D2F4,"Cn"},{0x1D300,"So"},{0x1D357,"Cn"},{0x1D360,"No"},{0x1D379,"Cn"},{0x1D400,"Lu"},{0x1D41A,"Ll"},{0x1D434,"Lu"},{0x1D44E,"Ll"},{0x1D455,"Cn"},
{0x1D456,"Ll"},{0x1D468,"Lu"},{0x1D482,"Ll"},{0x1D49C,"Lu"},{0x1D49D,"Cn"},{0x1D49E,"Lu"},{0x1D4A0,"Cn"},{0x1D4A2,"Lu"},{0x1D4A3,"Cn"},{0x1D4A5,"Lu"},{0x1D4A7,"Cn"},{0x1D4A9,"Lu"},
{0x1D4AD,"Cn"},{0x1D4AE,"Lu"},{0x1D4B6,"Ll"},{0x1D4BA,"Cn"},{0x1D4BB,"Ll"},{0x1D4BC,"Cn"},{0x1D4BD,"Ll"},{0x1D4C4,"Cn"},{0x1D4C5,"Ll"},{0x1D4D0,"Lu"},{0x1D4EA,"Ll"},{0x1D504,"Lu"},
{0x1D506,"Cn"},{0x1D507,"Lu"},{0x1D50B,"Cn"},{0x1D50D,"Lu"},{0x1D515,"Cn"},{0x1D516,"Lu"},{0x1D51D,"Cn"},{0x1D51E,"Ll"},{0x1D538,"Lu"},{0x1D53A,"Cn"},{0x1D53B,"Lu"},{0x1D53F,"Cn"},
{0x1D540,"Lu"},{0x1D545,"Cn"},{0x1D546,"Lu"},{0x1D547,"Cn"},{0x1D54A,"Lu"},{0x1D551,"Cn"},{0x1D552,"Ll"},{0x1D56C,"Lu"},{0x1D586,"Ll"},{0x1D5A0,"Lu"},{0x1D5BA,"Ll"},{0x1D5D4,"Lu"},
{0x1D5EE,"Ll"},{0x1D608,"Lu"},{0x1D622,"Ll"},{0x1D63C,"Lu"},{0x1D656,"Ll"},{0x1D670,"Lu"},{0x1D68A,"Ll"},{0x1D6A6,"Cn"},{0x1D6A8,"Lu"},{0x1D6C1,"Sm"},{0x1D6C2,"Ll"},{0x1D6DB,"Sm"},
{0x1D6DC,"Ll"},{0x1D6E2,"Lu"},{0x1D6FB,"Sm"},{0x1D6FC,"Ll"},{0x1D715,"Sm"},{0x1D716,"Ll"},{0x1D71C,"Lu"},{0x1D735,"Sm"},{0x1D736,"Ll"},{0x1D74F,"Sm"},{0x1D750,"Ll"},{0x1D756,"Lu"},
{0x1D76F,"Sm"},{0x1D770,"Ll"},{0x1D789,"Sm"},{0x1D78A,"Ll"},{0x1D790,"Lu"},{0x1D7A9,"Sm"},{0x1D7AA,"Ll"},{0x1D7C3,"Sm"},{0x1D7C4,"Ll"},{0x1D7CA,"Lu"},{0x1D7CB,"Ll"},{0x1D7CC,"Cn"},
{0x1D7CE,"Nd"},{0x1D800,"So"},{0x1DA00,"Mn"},{0x1DA37,"So"},{0x1DA3B,"Mn"},{0x1DA6D,"So"},{0x1DA75,"Mn"},{0x1DA76,"So"},{0x1DA84,"Mn"},{0x1DA85,"So"},{0x1DA87,"Po"},{0x1DA8C,"Cn"},
{0x1DA9B,"Mn"},{0x1DAA0,"Cn"},{0x1DAA1,"Mn"},{0x1DAB0,"Cn"},{0x1DF00,"Ll"},{0x1DF0A,"Lo"},{0x1DF0B,"Ll"},{0x1DF1F,"Cn"},{0x1DF25,"Ll"},{0x1DF2B,"Cn"},{0x1E000,"Mn"},{0x1E007,"Cn"},
{0x1E008,"Mn"},{0x1E019,"Cn"},{0x1E01B,"Mn"},{0x1E022,"Cn"},{0x1E023,"Mn"},{0x1E025,"Cn"},{0x1E026,"Mn"},{0x1E02B,"Cn"},{0x1E030,"Lm"},{0x1E06E,"Cn"},{0x1E08F,"Mn"},{0x1E090,"Cn"},
{0x1E100,"Lo"},{0x1E12D,"Cn"},{0x1E130,"Mn"},{0x1E137,"Lm"},{0x1E13E,"Cn"},{0x1E140,"Nd"},{0x1E14A,"Cn"},{0x1E14E,"Lo"},{0x1E14F,"So"},{0x1E150,"Cn"},{0x1E290,"Lo"},{0x1E2AE,"Mn"},
{0x1E2AF,"Cn"},{0x1E2C0,"Lo"},{0x1E2EC,"Mn"},{0x1E2F0,"Nd"},{0x1E2FA,"Cn"},{0x1E2FF,"Sc"},{0x1E300,"Cn"},{0x1E4D0,"Lo"},{0x1E4EB,"Lm"},{0x1E4EC,"Mn"},{0x1E4F0,"Nd"},{0x1E4FA,"Cn"},
{0x1E7E0,"Lo"},{0x1E7E7,"Cn"},{0x1E7E8,"Lo"},{0x1E7EC,"Cn"},{0x1E7ED,"Lo"},{0x1E7EF,"Cn"},{0x1E7F0,"Lo"},{0x1E7FF,"Cn"},{0x1E800,"Lo"},{0x1E8C5,"Cn"},{0x1E8C7,"No"},{0x1E8D0,"Mn"},
{0x1E8D7,"Cn"},{0x1E900,"Lu"},{0x1E922,"Ll"},{0x1E944,"Mn"},{0x1E94B,"Lm"},{0x1E94C,"Cn"},{0x1E950,"Nd"},{0x1E95A,"Cn"},{0x1E95E,"Po"},{0x1E960,"Cn"},{0x1EC71,"No"},{0x1ECAC,"So"},
{0x1ECAD,"No"},{0x1ECB0,"Sc"},{0x1ECB1,"No"},{0x1ECB5,"Cn"},{0x1ED01,"No"},{0x1ED2E,"So"},{0x1ED2F,"No"},{0x1ED3E,"Cn"},{0x1EE00,"Lo"},{0x1EE04,"Cn"},{0x1EE05,"Lo"},{0x1EE20,"Cn"},
{0x1EE21,"Lo"},{0x1EE23,"Cn"},{0x1EE24,"Lo"},{0x1EE25,"Cn"},{0x1EE27,"Lo"},{0x1EE28,"Cn"},{0x1EE29,"Lo"},{0x1EE33,"Cn"},{0x1EE34,"Lo"},{0x1EE38,"Cn"},{0x1EE39,"Lo"},{0x1EE3A,"Cn"},
{0x1EE3B,"Lo"},{0x1EE3C,"Cn"},{0x1EE42,"Lo"},{0x1EE43,"Cn"},{0x1EE47,"Lo"},{0x1EE48,"Cn"},{0x1EE49,"Lo"},{0x1EE4A,"Cn"},{0x1EE4B,"Lo"},{0x1EE4C,"Cn"},{0x1EE4D,"Lo"},{0x1EE50,"Cn"},
{0x1EE51,"Lo"},{0x1EE53,"Cn"},{0x1EE54,"Lo"},{0x1EE55,"Cn"},{0x1EE57,"Lo"},{0x1EE58,"Cn"},{0x1EE59,"Lo"},{0x1EE5A,"Cn"},{0x1EE5B,"Lo"},{0x1EE5C,"Cn"},{0x1EE5D,"Lo"},{0x1EE5E,"Cn"},
{0x1EE5F,"Lo"},{0x1EE60,"Cn"},{0x1EE61,"Lo"},{0x1EE63,"Cn"},{0x1EE64,"Lo"},{0x1EE65,"Cn"},{0x1EE67,"Lo"},{0x1EE6B,"Cn"},{0x1EE6C,"Lo"},{0x1EE73,"Cn"},{0x1EE74,"Lo"},{0x1EE78,"Cn"},
{0x1EE79,"Lo"},{0x1EE7D,"Cn"},{0x1EE7E,"Lo"},{0x1EE7F,"Cn"},{0x1EE80,"Lo"},{0x1EE8A,"Cn"},{0x1EE8B,"Lo"},{0x1EE9C,"Cn"},{0x1EEA1,"Lo"},{0x1EEA4,"Cn"},{0x1EEA5,"Lo"},{0x1EEAA,"Cn"},
{0x1EEAB,"Lo"},{0x1EEBC,"Cn"},{0x1EEF0,"Sm"},{0x1EEF2,"Cn"},{0x1F000,"So"},{0x1F02C,"Cn"},{0x1F030,"So"},{0x1F094,"Cn"},{0x1F0A0,"So"},{0x1F0AF,"Cn"},{0x1F0B1,"So"},{0x1F0C0,"Cn"},
{0x1F0C1,"So"},{0x1F0D0,"Cn"},{0x1F0D1,"So"},{0x1F0F6,"Cn"},{0x1F100,"No"},{0x1F10D,"So"},{0x1F1AE,"Cn"},{0x1F1E6,"So"},{0x1F203,"Cn"},{0x1F210,"So"},{0x1F23C,"Cn"},{0x1F240,"So"},
{0x1F249,"Cn"},{0x1F250,"So"},{0x1F252,"Cn"},{0x1F260,"So"},{0x1F266,"Cn"},{0x1F300,"So"},{0x1F3FB,"Sk"},{0x1F400,"So"},{0x1F6D8,"Cn"},{0x1F6DC,"So"},{0x1F6ED,"Cn"},{0x1F6F0,"So"},
{0x1F6FD,"Cn"},{0x1F700,"So"},{0x1F777,"Cn"},{0x1F77B,"So"},{0x1F7DA,"Cn"},{0x1F7E0,"So"},{0x1F7EC,"Cn"},{0x1F7F0,"So"},{0x1F7F1,"Cn"},{0x1F800,"So"},{0x1F80C,"Cn"},{0x1F810,"So"},
{0x1F848,"Cn"},{0x1F850,"So"},{0x1F85A,"Cn"},{0x1F860,"So"},{0x1F888,"Cn"},{0x1F890,"So"},{0x1F8AE,"Cn"},{0x1F8B0,"So"},{0x1F8B2,"Cn"},{0x1F900,"So"},{0x1FA54,"Cn"},{0x1FA60,"So"},
{0x1FA6E,"Cn"},{0x1FA70,"So"},{0x1FA7D,"Cn"},{0x1FA80,"So"},{0x1FA89,"Cn"},{0x1FA90,"So"},{0x1FABE,"Cn"},{0x1FABF,"So"},{0x1FAC6,"Cn"},{0x1FACE,"So"},{0x1FADC,"Cn"},{0x1FAE0,"So"},
{0x1FAE9,"Cn"},{0x1FAF0,"So"},{0x1FAF9,"Cn"},{0x1FB00,"So"},{0x1FB93,"Cn"},{0x1FB94,"So"},{0x1FBCB,"Cn"},{0x1FBF0,"Nd"},{0x1FBFA,"Cn"},{0x20000,"Lo"},{0x2A6E0,"Cn"},{0x2A700,"Lo"},
{0x2B73A,"Cn"},{0x2B740,"Lo"},{0x2B81E,"Cn"},{0x2B820,"Lo"},{0x2CEA2,"Cn"},{0x2CEB0,"Lo"},{0x2EBE1,"Cn"},{0x2F800,"Lo"},{0x2FA1E,"Cn"},{0x30000,"Lo"},{0x3134B,"Cn"},{0x31350,"Lo"},
{0x323B0,"Cn"},{0xE0001,"Cf"},{0xE0002,"Cn"},{0xE0020,"Cf"},{0xE0080,"Cn"},{0xE0100,"Mn"},{0xE01F0,"Cn"},{0xF0000,"Co"},{0xFFFFE,"Cn"},{0x100000,"Co"},{0x10FFFE,"Cn"},
{0x110000,"Cn"} };
