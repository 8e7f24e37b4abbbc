//! Closures of the table-driven calendars: the days other than weekends and fixed rules that each
//! calendar tabulates, frozen from the reviewed tree. One row per (year, month): bit d is set when
//! day d is closed.

pub type Row = (i32, u32, u32);

#[rustfmt::skip]
pub const CHINA: [Row; 103] = [
    (2004, 1, 0x1cf80000),
    (2005, 1, 0x8), (2005, 2, 0xcf80),
    (2006, 1, 0xcc00000c), (2006, 2, 0xe),
    (2007, 1, 0xc), (2007, 2, 0xf80000), (2007, 12, 0x80000000),
    (2008, 2, 0x19c0), (2008, 5, 0x6), (2008, 9, 0x60000000), (2008, 10, 0xe),
    (2009, 1, 0x7c000004), (2009, 4, 0x40), (2009, 5, 0x30000002), (2009, 10, 0x1e6),
    (2010, 2, 0xf8000), (2010, 4, 0x20), (2010, 5, 0x8), (2010, 6, 0x1c000), (2010, 9, 0x1c00000), (2010, 10, 0xf2),
    (2011, 1, 0x8), (2011, 2, 0x19c), (2011, 4, 0x30), (2011, 5, 0x4), (2011, 6, 0x40), (2011, 9, 0x1000), (2011, 10, 0xf8),
    (2012, 1, 0xf80000c), (2012, 4, 0x4000001c), (2012, 5, 0x2), (2012, 6, 0x400000), (2012, 10, 0x3e),
    (2013, 1, 0xc), (2013, 2, 0xf800), (2013, 4, 0x60000030), (2013, 5, 0x2), (2013, 6, 0x1c00), (2013, 9, 0x180000), (2013, 10, 0x9e),
    (2014, 1, 0x80000000), (2014, 2, 0x78), (2014, 4, 0x80), (2014, 5, 0x6), (2014, 6, 0x4), (2014, 9, 0x100), (2014, 10, 0xce),
    (2015, 1, 0x4), (2015, 2, 0x19c0000), (2015, 4, 0x40), (2015, 5, 0x2), (2015, 6, 0x400000), (2015, 9, 0x18), (2015, 10, 0xe6),
    (2016, 2, 0x1f00), (2016, 4, 0x10), (2016, 5, 0x4), (2016, 6, 0x600), (2016, 9, 0x18000), (2016, 10, 0xf8),
    (2017, 1, 0xc8000004), (2017, 2, 0x6), (2017, 4, 0x18), (2017, 5, 0x60000002), (2017, 10, 0x7c),
    (2018, 2, 0x398000), (2018, 4, 0x40000060), (2018, 5, 0x2), (2018, 6, 0x40000), (2018, 9, 0x1000000), (2018, 10, 0x3e), (2018, 12, 0x80000000),
    (2019, 2, 0x1f0), (2019, 4, 0x20), (2019, 5, 0xe), (2019, 6, 0x80), (2019, 9, 0x2000), (2019, 10, 0x9e),
    (2020, 1, 0xf9000000), (2020, 4, 0x40), (2020, 5, 0x32), (2020, 6, 0x6000000), (2020, 10, 0x1e6),
    (2021, 2, 0x39800), (2021, 4, 0x20), (2021, 5, 0x38), (2021, 6, 0x4000), (2021, 9, 0x300000), (2021, 10, 0xf2),
    (2022, 1, 0x80000008), (2022, 2, 0x1e), (2022, 4, 0x30), (2022, 5, 0x1c), (2022, 6, 0x8), (2022, 9, 0x1000), (2022, 10, 0xf8),
    (2023, 1, 0xf800004), (2023, 4, 0x20), (2023, 5, 0xe), (2023, 6, 0xc00000), (2023, 9, 0x20000000), (2023, 10, 0x7c),
];

#[rustfmt::skip]
pub const HONGKONG: [Row; 109] = [
    (2004, 1, 0xc00000), (2004, 4, 0x20), (2004, 5, 0x4000000), (2004, 6, 0x400000), (2004, 9, 0x20000000), (2004, 10, 0x400000),
    (2005, 2, 0xe00), (2005, 4, 0x20), (2005, 5, 0x10000), (2005, 9, 0x80000), (2005, 10, 0x800),
    (2006, 1, 0xc0000000), (2006, 4, 0x20), (2006, 5, 0x80000020), (2006, 10, 0x40000000),
    (2007, 2, 0x180000), (2007, 4, 0x20), (2007, 5, 0x1000000), (2007, 6, 0x80000), (2007, 9, 0x4000000), (2007, 10, 0x80000),
    (2008, 2, 0x180), (2008, 4, 0x10), (2008, 5, 0x1000), (2008, 6, 0x200), (2008, 9, 0x8000), (2008, 10, 0x80),
    (2009, 1, 0x1c000000), (2009, 5, 0x10000000), (2009, 10, 0x4000000),
    (2010, 2, 0x18000), (2010, 4, 0x40), (2010, 5, 0x200000), (2010, 6, 0x10000), (2010, 9, 0x800000),
    (2011, 2, 0x18), (2011, 4, 0x20), (2011, 5, 0x400), (2011, 6, 0x40), (2011, 9, 0x2000), (2011, 10, 0x20), (2011, 12, 0x8000000),
    (2012, 1, 0x3800000), (2012, 4, 0x10), (2012, 5, 0x400), (2012, 10, 0x800000),
    (2013, 2, 0x3800), (2013, 4, 0x10), (2013, 5, 0x20000), (2013, 6, 0x1000), (2013, 9, 0x100000), (2013, 10, 0x4000),
    (2014, 1, 0x80000000), (2014, 2, 0x8), (2014, 5, 0x40), (2014, 6, 0x4), (2014, 9, 0x200), (2014, 10, 0x4),
    (2015, 2, 0x180000), (2015, 4, 0x80), (2015, 5, 0x2000000), (2015, 9, 0x10000008), (2015, 10, 0x200000),
    (2016, 2, 0x700), (2016, 4, 0x10), (2016, 6, 0x200), (2016, 9, 0x10000), (2016, 10, 0x400), (2016, 12, 0x8000000),
    (2017, 1, 0xc0000000), (2017, 4, 0x10), (2017, 5, 0x40000008), (2017, 10, 0x20),
    (2018, 2, 0x90000), (2018, 4, 0x20), (2018, 5, 0x400000), (2018, 6, 0x40000), (2018, 9, 0x2000000), (2018, 10, 0x20000),
    (2019, 2, 0xe0), (2019, 4, 0x20), (2019, 6, 0x80), (2019, 10, 0x80),
    (2020, 1, 0x18000000), (2020, 4, 0x40000000), (2020, 6, 0x2000000), (2020, 10, 0x4000004),
    (2021, 2, 0x9000), (2021, 5, 0x80000), (2021, 6, 0x4000), (2021, 9, 0x400000), (2021, 10, 0x4000),
    (2022, 2, 0xe), (2022, 4, 0x20), (2022, 5, 0x200), (2022, 6, 0x8), (2022, 9, 0x1000), (2022, 10, 0x10),
    (2023, 1, 0x3800000), (2023, 4, 0x20), (2023, 5, 0x4000000), (2023, 6, 0x400000), (2023, 10, 0x800000),
    (2024, 2, 0x3000), (2024, 4, 0x10), (2024, 5, 0x8000), (2024, 6, 0x400), (2024, 9, 0x40000), (2024, 10, 0x800),
];

#[rustfmt::skip]
pub const INDIA: [Row; 112] = [
    (2005, 1, 0x200000), (2005, 9, 0x80), (2005, 10, 0x1000), (2005, 11, 0x800a),
    (2006, 1, 0x800), (2006, 2, 0x200), (2006, 3, 0x8000), (2006, 4, 0x840), (2006, 10, 0x3000000),
    (2007, 1, 0x40000002), (2007, 2, 0x10000), (2007, 3, 0x8000000), (2007, 5, 0x4), (2007, 11, 0x200), (2007, 12, 0x200000),
    (2008, 3, 0x100040), (2008, 4, 0x40000), (2008, 5, 0x80000), (2008, 9, 0x8), (2008, 10, 0x50000200), (2008, 11, 0x2000), (2008, 12, 0x200),
    (2009, 1, 0x100), (2009, 2, 0x800000), (2009, 3, 0xc00), (2009, 4, 0x88), (2009, 9, 0x10200000), (2009, 10, 0x80000), (2009, 11, 0x4), (2009, 12, 0x10000000),
    (2010, 1, 0x2), (2010, 2, 0x1000), (2010, 3, 0x1000002), (2010, 9, 0x400), (2010, 11, 0x20020), (2010, 12, 0x20000),
    (2011, 3, 0x4), (2011, 4, 0x1000), (2011, 8, 0x80000000), (2011, 9, 0x2), (2011, 10, 0xc000040), (2011, 11, 0x480), (2011, 12, 0x40),
    (2012, 2, 0x100000), (2012, 3, 0x100), (2012, 4, 0x20), (2012, 8, 0x100000), (2012, 9, 0x80000), (2012, 10, 0x1000000), (2012, 11, 0x10004000),
    (2013, 3, 0x8000000), (2013, 4, 0x1080000), (2013, 8, 0x200), (2013, 9, 0x200), (2013, 10, 0x10000), (2013, 11, 0x4010),
    (2014, 2, 0x8000000), (2014, 3, 0x20000), (2014, 4, 0x100), (2014, 7, 0x20000000), (2014, 8, 0x20000000), (2014, 10, 0x1000048), (2014, 11, 0x50),
    (2019, 2, 0x80000), (2019, 3, 0x200010), (2019, 4, 0x20020002), (2019, 6, 0x20), (2019, 8, 0x1000), (2019, 9, 0x404), (2019, 10, 0x10200100), (2019, 11, 0x1000),
    (2020, 2, 0x280000), (2020, 3, 0x2000400), (2020, 4, 0x46), (2020, 5, 0x2000080), (2020, 10, 0x40000000), (2020, 11, 0x40010000),
    (2021, 2, 0x80000), (2021, 3, 0x20000800), (2021, 4, 0x202000), (2021, 5, 0x4000000), (2021, 7, 0x200000), (2021, 9, 0x400), (2021, 10, 0x88000), (2021, 11, 0x80020),
    (2022, 3, 0x40002), (2022, 5, 0x10008), (2022, 8, 0x80000000), (2022, 10, 0x4000020), (2022, 11, 0x100),
    (2023, 3, 0x40400100), (2023, 4, 0x10), (2023, 5, 0x20), (2023, 6, 0x10000000), (2023, 9, 0x10080000), (2023, 10, 0x1000000), (2023, 11, 0x8004000),
    (2024, 2, 0x80000), (2024, 3, 0x2000100), (2024, 4, 0x20200), (2024, 5, 0x800000), (2024, 6, 0x20000), (2024, 8, 0x8000000), (2024, 9, 0x10000), (2024, 11, 0x8000),
    (2025, 2, 0x4080000), (2025, 3, 0x80004000), (2025, 4, 0x400), (2025, 5, 0x1000), (2025, 9, 0x20), (2025, 10, 0x400000), (2025, 11, 0x20),
];

#[rustfmt::skip]
pub const INDONESIA: [Row; 65] = [
    (2005, 1, 0x200000), (2005, 2, 0x600), (2005, 3, 0x800), (2005, 4, 0x400000), (2005, 5, 0x1000000), (2005, 9, 0x4), (2005, 11, 0x19c), (2005, 12, 0x4000000),
    (2006, 1, 0x80000400), (2006, 3, 0x40000000), (2006, 4, 0x400), (2006, 8, 0x200000), (2006, 10, 0xf800000),
    (2007, 3, 0x80000), (2007, 5, 0x40000), (2007, 6, 0x2), (2007, 10, 0x1019000), (2007, 12, 0x100000),
    (2008, 1, 0xc00), (2008, 2, 0x180), (2008, 3, 0x100080), (2008, 5, 0x100000), (2008, 7, 0x40000000), (2008, 8, 0x40000), (2008, 9, 0x40000000), (2008, 10, 0xe), (2008, 12, 0xa0000100),
    (2009, 1, 0x4000004), (2009, 3, 0x4000200), (2009, 4, 0x200), (2009, 7, 0x100000), (2009, 9, 0xe40000), (2009, 11, 0x8000000), (2009, 12, 0x81040000),
    (2010, 2, 0x4000000), (2010, 3, 0x10000), (2010, 5, 0x10000000), (2010, 9, 0x6700), (2010, 11, 0x20000), (2010, 12, 0x81000080),
    (2011, 2, 0x8008), (2011, 5, 0x20000), (2011, 6, 0x20000000), (2011, 8, 0xe0000000), (2011, 9, 0x6), (2011, 12, 0x4000000),
    (2012, 1, 0x800000), (2012, 3, 0x800000), (2012, 8, 0x700000), (2012, 10, 0x4000000), (2012, 11, 0x18000), (2012, 12, 0x81000000),
    (2013, 1, 0x1000000), (2013, 3, 0x1000), (2013, 6, 0x40), (2013, 8, 0x3e0), (2013, 10, 0xc000), (2013, 11, 0x20), (2013, 12, 0x84000000),
    (2014, 1, 0x80004000), (2014, 3, 0x80000000), (2014, 5, 0x8008002), (2014, 7, 0xf0000000), (2014, 8, 0x2), (2014, 12, 0x84000000),
];

#[rustfmt::skip]
pub const ISRAEL: [Row; 188] = [
    (2013, 2, 0x1000000), (2013, 3, 0x86000000), (2013, 4, 0x18002), (2013, 5, 0xc000), (2013, 7, 0x10000), (2013, 9, 0x60c0030),
    (2014, 3, 0x10000), (2014, 4, 0x30c000), (2014, 5, 0x60), (2014, 6, 0x18), (2014, 8, 0x20), (2014, 9, 0x3000000), (2014, 10, 0x18300),
    (2015, 3, 0x20), (2015, 4, 0xc00200), (2015, 5, 0x1000000), (2015, 7, 0x4000000), (2015, 9, 0x18c0e000), (2015, 10, 0x30),
    (2016, 3, 0x1000000), (2016, 4, 0x10000000), (2016, 5, 0x1800), (2016, 6, 0x1000), (2016, 8, 0x4000), (2016, 10, 0x183181c),
    (2017, 3, 0x1000), (2017, 4, 0x30c00), (2017, 5, 0xc0000006), (2017, 8, 0x2), (2017, 9, 0x300000), (2017, 10, 0x1830),
    (2018, 3, 0x2), (2018, 4, 0xc0020), (2018, 5, 0x100000), (2018, 7, 0x400000), (2018, 9, 0x418c0e00), (2018, 10, 0x2),
    (2019, 3, 0x200000), (2019, 4, 0x2000000), (2019, 5, 0x300), (2019, 6, 0x200), (2019, 8, 0x800), (2019, 9, 0x60000000), (2019, 10, 0x306302),
    (2020, 3, 0x400), (2020, 4, 0x3000c300), (2020, 5, 0x10000000), (2020, 7, 0x40000000), (2020, 9, 0x18100000),
    (2021, 3, 0x10000000), (2021, 4, 0xc000), (2021, 5, 0x20000), (2021, 7, 0x40000), (2021, 9, 0x18318180),
    (2022, 3, 0x20000), (2022, 5, 0x30), (2022, 6, 0x20), (2022, 8, 0x80), (2022, 9, 0xc000000), (2022, 10, 0x30630),
    (2023, 3, 0x80), (2023, 4, 0x6001040), (2023, 7, 0x8000000), (2023, 9, 0x3020000),
    (2024, 3, 0x1000000), (2024, 4, 0x20800000), (2024, 5, 0x6000), (2024, 6, 0x1000), (2024, 8, 0x2000), (2024, 10, 0x1830008),
    (2025, 4, 0x40002000), (2025, 5, 0x2), (2025, 6, 0x4), (2025, 8, 0x8), (2025, 9, 0x1800000), (2025, 10, 0x60c6),
    (2026, 3, 0x8), (2026, 4, 0x600104), (2026, 7, 0x800000), (2026, 9, 0x302000),
    (2027, 3, 0x800000), (2027, 4, 0x10400000), (2027, 5, 0x1800), (2027, 8, 0x1000), (2027, 10, 0xc08),
    (2028, 3, 0x1000), (2028, 4, 0x20800), (2028, 5, 0x80000006), (2028, 8, 0x2), (2028, 9, 0x200000), (2028, 10, 0x1830),
    (2029, 3, 0x2), (2029, 4, 0xc0000), (2029, 5, 0x100000), (2029, 7, 0x400000), (2029, 9, 0x418c0c00), (2029, 10, 0x2),
    (2030, 3, 0x80000), (2030, 4, 0x1040000), (2030, 5, 0x180), (2030, 8, 0x100), (2030, 9, 0x20000000), (2030, 10, 0xc0),
    (2031, 3, 0x200), (2031, 4, 0x30004100), (2031, 5, 0x10000000), (2031, 7, 0x20000000), (2031, 9, 0x40000), (2031, 10, 0x306),
    (2032, 2, 0x4000000), (2032, 4, 0xc000), (2032, 5, 0x10000), (2032, 7, 0x40000), (2032, 9, 0xc18c0c0),
    (2033, 3, 0x8000), (2033, 4, 0x104000), (2033, 5, 0x18), (2033, 8, 0x10), (2033, 9, 0x2000000), (2033, 10, 0xc),
    (2034, 3, 0x20), (2034, 4, 0x3000410), (2034, 5, 0x1000000), (2034, 7, 0x2000000), (2034, 9, 0x18004000), (2034, 10, 0x30),
    (2035, 3, 0x2000000), (2035, 4, 0x41000000), (2035, 5, 0xc000), (2035, 6, 0x2000), (2035, 8, 0x4000), (2035, 10, 0x3060010),
    (2036, 3, 0x2000), (2036, 4, 0x40000000), (2036, 5, 0x2), (2036, 6, 0x2), (2036, 8, 0x8), (2036, 9, 0x40c00000), (2036, 10, 0x3062),
    (2037, 3, 0x80000002), (2037, 4, 0x300040), (2037, 5, 0x100000), (2037, 7, 0x200000), (2037, 9, 0x41800400), (2037, 10, 0x2),
    (2038, 3, 0x200000), (2038, 4, 0x4100000), (2038, 5, 0x600), (2038, 6, 0x200), (2038, 8, 0x400), (2038, 9, 0x40000000), (2038, 10, 0x306000),
    (2039, 3, 0x400), (2039, 4, 0x18000000), (2039, 5, 0x20000000), (2039, 7, 0x80000000), (2039, 9, 0x18180000), (2039, 10, 0x60c),
    (2040, 2, 0x10000000), (2040, 3, 0x20000000), (2040, 4, 0x60010), (2040, 7, 0x80000), (2040, 9, 0x30200),
    (2041, 3, 0x20000), (2041, 4, 0x410000), (2041, 5, 0xc0), (2041, 6, 0x20), (2041, 8, 0x40), (2041, 9, 0x4000000), (2041, 10, 0x30600),
    (2042, 3, 0x40), (2042, 4, 0x1800000), (2042, 5, 0x2000000), (2042, 7, 0x8000000), (2042, 9, 0x31818000), (2042, 10, 0x60),
    (2043, 3, 0x4000000), (2043, 5, 0x6000), (2043, 6, 0x4000), (2043, 8, 0x10000), (2043, 10, 0x60c6060),
    (2044, 3, 0x2000), (2044, 4, 0x41000), (2044, 5, 0xc), (2044, 6, 0x2), (2044, 8, 0x4), (2044, 9, 0x400000), (2044, 10, 0x3060),
];

#[rustfmt::skip]
pub const SINGAPORE: [Row; 57] = [
    (2004, 1, 0xc00000), (2004, 2, 0x4), (2004, 6, 0x4), (2004, 11, 0x8800),
    (2005, 1, 0x200000), (2005, 2, 0x600), (2005, 11, 0xa),
    (2006, 1, 0xc0000400), (2006, 5, 0x1000), (2006, 10, 0x1000000),
    (2007, 1, 0x4), (2007, 2, 0x180000), (2007, 5, 0x80000000), (2007, 11, 0x100), (2007, 12, 0x100000),
    (2008, 2, 0x180), (2008, 10, 0x10000002), (2008, 12, 0x100),
    (2009, 1, 0xc000000), (2009, 9, 0x200000), (2009, 11, 0x8010000),
    (2010, 2, 0x18000), (2010, 5, 0x10000000), (2010, 9, 0x400), (2010, 11, 0x20020),
    (2012, 1, 0x1800000), (2012, 8, 0x100000), (2012, 10, 0x4000000), (2012, 11, 0x2000),
    (2013, 2, 0x1800), (2013, 5, 0x1000000), (2013, 8, 0x100), (2013, 10, 0x8000),
    (2014, 1, 0x80000000), (2014, 5, 0x2000), (2014, 7, 0x10000000), (2014, 10, 0x800040),
    (2019, 2, 0x60), (2019, 5, 0x100000), (2019, 6, 0x20), (2019, 8, 0x1000), (2019, 10, 0x10000000),
    (2020, 1, 0x8000000), (2020, 5, 0x2000080), (2020, 7, 0x80000000),
    (2021, 2, 0x1000), (2021, 5, 0x4002000), (2021, 7, 0x100000), (2021, 11, 0x10),
    (2022, 2, 0x6), (2022, 5, 0x1000c), (2022, 7, 0x800), (2022, 10, 0x1000000), (2022, 12, 0x4000000),
    (2023, 1, 0x1800000), (2023, 6, 0x20000004), (2023, 11, 0x2000),
];

#[rustfmt::skip]
pub const SOUTHKOREA: [Row; 157] = [
    (2004, 1, 0xe00000), (2004, 4, 0x8000), (2004, 5, 0x4000000), (2004, 9, 0x38000000),
    (2005, 2, 0x700), (2005, 9, 0x80000),
    (2006, 1, 0x40000000), (2006, 5, 0x80000000), (2006, 10, 0x60),
    (2007, 2, 0x80000), (2007, 5, 0x1000000), (2007, 9, 0x7000000), (2007, 12, 0x80000),
    (2008, 2, 0x1c0), (2008, 4, 0x200), (2008, 5, 0x1000), (2008, 9, 0x8000),
    (2009, 1, 0xc000000), (2009, 10, 0x4),
    (2010, 2, 0x8000), (2010, 5, 0x200000), (2010, 6, 0x4), (2010, 9, 0xe00000),
    (2011, 2, 0x1c), (2011, 5, 0x400), (2011, 9, 0x3000),
    (2012, 1, 0x1800000), (2012, 4, 0x800), (2012, 5, 0x10000000), (2012, 10, 0x2), (2012, 12, 0x80000),
    (2013, 2, 0x800), (2013, 5, 0x20000), (2013, 9, 0x1c0000),
    (2014, 1, 0xc0000000), (2014, 5, 0x40), (2014, 6, 0x10), (2014, 9, 0x700),
    (2015, 2, 0x1c0000), (2015, 5, 0x2000000), (2015, 8, 0x4000), (2015, 9, 0x30000000),
    (2016, 2, 0x700), (2016, 4, 0x2000), (2016, 9, 0x1c000),
    (2017, 1, 0x48000000), (2017, 5, 0x208), (2017, 10, 0x70),
    (2018, 2, 0x18000), (2018, 5, 0x400000), (2018, 6, 0x2000), (2018, 9, 0x7000000),
    (2019, 2, 0x70), (2019, 9, 0x3000),
    (2020, 1, 0x9000000), (2020, 4, 0x40008000), (2020, 8, 0x20000), (2020, 9, 0x40000000), (2020, 10, 0x6),
    (2021, 2, 0x1800), (2021, 5, 0x80000), (2021, 9, 0x700000),
    (2022, 1, 0x80000000), (2022, 2, 0x6), (2022, 3, 0x200), (2022, 6, 0x2), (2022, 9, 0x1200),
    (2023, 1, 0x1800000), (2023, 5, 0x20000000), (2023, 9, 0x30000000), (2023, 10, 0x4),
    (2024, 2, 0x1200), (2024, 4, 0x400), (2024, 5, 0x8000), (2024, 9, 0x70000),
    (2025, 1, 0x70000000), (2025, 5, 0x40), (2025, 10, 0x1c0),
    (2026, 2, 0x70000), (2026, 5, 0x2000000), (2026, 9, 0x3000000),
    (2027, 2, 0x300), (2027, 5, 0x2000), (2027, 9, 0x1c000),
    (2028, 1, 0x1c000000), (2028, 5, 0x4), (2028, 10, 0x34),
    (2029, 2, 0x7000), (2029, 5, 0x200000), (2029, 9, 0x1200000),
    (2030, 2, 0x30), (2030, 5, 0x200), (2030, 9, 0x3800),
    (2031, 1, 0x1c00000), (2031, 5, 0x10000000), (2031, 9, 0x40000000), (2031, 10, 0x6),
    (2032, 2, 0x1c00), (2032, 5, 0x20000), (2032, 9, 0x300000),
    (2033, 1, 0x80000000), (2033, 2, 0x6), (2033, 5, 0x40), (2033, 9, 0x380),
    (2034, 2, 0x300000), (2034, 5, 0x2000000), (2034, 9, 0x1c000000),
    (2035, 2, 0x380), (2035, 5, 0x8000), (2035, 9, 0x60000),
    (2036, 1, 0x70000000), (2036, 5, 0x40), (2036, 10, 0xc0),
    (2037, 2, 0x30000), (2037, 5, 0x400000), (2037, 9, 0x3800000),
    (2038, 2, 0x38), (2038, 5, 0x800), (2038, 9, 0xe000),
    (2039, 1, 0x7000000), (2039, 5, 0x4), (2039, 10, 0x30),
    (2040, 2, 0x6000), (2040, 5, 0x40000), (2040, 9, 0x300000),
    (2041, 1, 0x80000000), (2041, 2, 0x2), (2041, 5, 0x80), (2041, 9, 0xe00),
    (2042, 1, 0xe00000), (2042, 5, 0x4000000), (2042, 9, 0x60000000),
    (2043, 2, 0xe00), (2043, 5, 0x40000), (2043, 9, 0x70000),
    (2044, 1, 0x20000000), (2044, 2, 0x2), (2044, 5, 0x40), (2044, 10, 0x70),
    (2045, 2, 0x30000), (2045, 5, 0x1000000), (2045, 9, 0xe000000),
    (2046, 2, 0xe0), (2046, 5, 0x4000), (2046, 9, 0x24000),
    (2047, 1, 0x12000000), (2047, 5, 0x4), (2047, 10, 0x90),
    (2048, 2, 0x6000), (2048, 5, 0x100000), (2048, 9, 0xe00000),
    (2049, 2, 0xe), (2049, 5, 0x400), (2049, 9, 0x2400),
    (2050, 1, 0x3000000), (2050, 5, 0x40000000), (2050, 9, 0x60000000),
];

#[rustfmt::skip]
pub const TAIWAN: [Row; 96] = [
    (2002, 2, 0xf800),
    (2003, 1, 0x80000000), (2003, 2, 0x38), (2003, 6, 0x10), (2003, 9, 0x800),
    (2004, 1, 0x4e00000), (2004, 6, 0x400000), (2004, 9, 0x10000000),
    (2005, 2, 0xf80), (2005, 5, 0x4),
    (2006, 1, 0xc0000000), (2006, 2, 0xe), (2006, 5, 0x80000000), (2006, 10, 0x40),
    (2007, 2, 0xf80000), (2007, 4, 0x40), (2007, 6, 0xc0000), (2007, 9, 0x3000000),
    (2008, 2, 0x9f0), (2008, 4, 0x10),
    (2009, 1, 0x7c000004), (2009, 5, 0x30000000),
    (2010, 1, 0x3ce000), (2010, 9, 0x400000),
    (2011, 2, 0x9c), (2011, 4, 0x10), (2011, 5, 0x4), (2011, 6, 0x40), (2011, 9, 0x1000),
    (2012, 1, 0xf800000), (2012, 2, 0x8000000), (2012, 4, 0x10), (2012, 12, 0x80000000),
    (2013, 2, 0xf800), (2013, 4, 0x10), (2013, 6, 0x1000), (2013, 9, 0x180000),
    (2014, 1, 0xf0000000), (2014, 2, 0x18), (2014, 4, 0x10), (2014, 6, 0x4), (2014, 9, 0x100),
    (2015, 1, 0x4), (2015, 2, 0x89c0000), (2015, 4, 0x48), (2015, 6, 0x80000), (2015, 9, 0x10000000), (2015, 10, 0x200),
    (2016, 2, 0x20001f00), (2016, 4, 0x10), (2016, 5, 0x4), (2016, 6, 0x600), (2016, 9, 0x18000),
    (2017, 1, 0xc8000004), (2017, 2, 0x8000002), (2017, 4, 0x18), (2017, 5, 0x60000000), (2017, 10, 0x210),
    (2018, 2, 0x198000), (2018, 4, 0x50), (2018, 6, 0x40000), (2018, 9, 0x1000000), (2018, 12, 0x80000000),
    (2019, 2, 0x1f0), (2019, 3, 0x2), (2019, 4, 0x10), (2019, 6, 0x80), (2019, 9, 0x2000), (2019, 10, 0x800),
    (2020, 1, 0x39800000), (2020, 4, 0xc), (2020, 6, 0x6000000), (2020, 10, 0x206),
    (2021, 2, 0x19c00), (2021, 3, 0x2), (2021, 4, 0x40000004), (2021, 6, 0x4000), (2021, 9, 0x300000), (2021, 10, 0x800), (2021, 12, 0x80000000),
    (2022, 1, 0x80000000), (2022, 2, 0x1e), (2022, 4, 0x10), (2022, 5, 0x4), (2022, 6, 0x8), (2022, 9, 0x200),
    (2023, 1, 0xf900004), (2023, 2, 0x8000000), (2023, 4, 0x18), (2023, 6, 0xc00000), (2023, 9, 0x20000000), (2023, 10, 0x200),
    (2024, 2, 0x7300), (2024, 4, 0x10), (2024, 6, 0x400), (2024, 9, 0x20000),
];

#[rustfmt::skip]
pub const THAILAND: [Row; 76] = [
    (2000, 2, 0x200000), (2000, 5, 0x20020), (2000, 7, 0x20000), (2000, 10, 0x800000),
    (2001, 2, 0x100), (2001, 5, 0x180), (2001, 7, 0x40), (2001, 10, 0x800000),
    (2005, 2, 0x800000), (2005, 5, 0x800020), (2005, 7, 0x400002), (2005, 10, 0x1000000),
    (2006, 2, 0x2000), (2006, 4, 0x80000), (2006, 5, 0x1020), (2006, 6, 0x3000), (2006, 7, 0x800), (2006, 10, 0x800000),
    (2007, 3, 0x20), (2007, 5, 0x80000080), (2007, 7, 0x40000000), (2007, 10, 0x800000), (2007, 12, 0x1000000),
    (2008, 2, 0x200000), (2008, 5, 0x80020), (2008, 7, 0x20002), (2008, 10, 0x800000),
    (2009, 1, 0x4), (2009, 2, 0x200), (2009, 5, 0x120), (2009, 7, 0xc2), (2009, 10, 0x800000),
    (2010, 3, 0x2), (2010, 5, 0x10300020), (2010, 7, 0x4000002), (2010, 8, 0x2000), (2010, 10, 0x2000000),
    (2011, 2, 0x40000), (2011, 5, 0x30020), (2011, 7, 0x8002), (2011, 10, 0x1000000),
    (2012, 1, 0x8), (2012, 3, 0x80), (2012, 4, 0x200), (2012, 5, 0x80), (2012, 6, 0x10), (2012, 8, 0x4), (2012, 10, 0x800000),
    (2013, 2, 0x2000000), (2013, 5, 0x1000040), (2013, 7, 0x400002), (2013, 10, 0x800000), (2013, 12, 0x40000000),
    (2014, 2, 0x4000), (2014, 5, 0x2020), (2014, 7, 0x802), (2014, 8, 0x800), (2014, 10, 0x800000),
    (2015, 1, 0x4), (2015, 3, 0x10), (2015, 5, 0x30), (2015, 6, 0x2), (2015, 7, 0x40000002), (2015, 10, 0x800000),
    (2016, 2, 0x400000), (2016, 5, 0x100060), (2016, 7, 0xc0002), (2016, 10, 0x1000000),
    (2017, 2, 0x2000), (2017, 5, 0x400), (2017, 7, 0x400), (2017, 10, 0x4800000),
    (2018, 3, 0x2), (2018, 5, 0x20000000), (2018, 7, 0x8000000), (2018, 10, 0x800000),
];

#[rustfmt::skip]
pub const TURKEY: [Row; 67] = [
    (2004, 2, 0x1c), (2004, 11, 0x18000),
    (2005, 1, 0x380000), (2005, 11, 0x1c),
    (2006, 1, 0x3c00), (2006, 10, 0x3800000),
    (2007, 1, 0xc), (2007, 10, 0x1000), (2007, 12, 0x300000),
    (2008, 9, 0x40000000), (2008, 10, 0x6), (2008, 12, 0xf00),
    (2009, 9, 0x600000), (2009, 11, 0x48000000),
    (2010, 9, 0x600), (2010, 11, 0xf0000),
    (2011, 11, 0xe00),
    (2012, 8, 0x300000), (2012, 10, 0x7000000),
    (2013, 8, 0x380), (2013, 10, 0x1007c000),
    (2014, 7, 0x70000000), (2014, 10, 0xc0),
    (2015, 7, 0x20000), (2015, 10, 0xc000000),
    (2016, 7, 0xe0), (2016, 9, 0xf000),
    (2017, 6, 0xc000000), (2017, 9, 0x12),
    (2018, 6, 0x8000), (2018, 8, 0x1e00000),
    (2019, 6, 0x70), (2019, 8, 0x7000),
    (2020, 5, 0x6000000), (2020, 7, 0x80000000), (2020, 8, 0x8),
    (2021, 5, 0x6000), (2021, 7, 0xf00000),
    (2022, 5, 0x1c), (2022, 7, 0x1800),
    (2023, 4, 0x200000), (2023, 6, 0x70000000),
    (2024, 4, 0x1c00), (2024, 6, 0xe0000),
    (2025, 3, 0x80000000), (2025, 4, 0x6), (2025, 6, 0x240),
    (2026, 3, 0x100000), (2026, 5, 0x3c000000),
    (2027, 3, 0x1c00), (2027, 5, 0x60000),
    (2028, 2, 0x30000000), (2028, 5, 0x30),
    (2029, 2, 0x18000), (2029, 4, 0x7000000),
    (2030, 2, 0xe0), (2030, 4, 0x18000),
    (2031, 1, 0x8000000), (2031, 4, 0x1c),
    (2032, 1, 0x1c000), (2032, 3, 0x1c00000),
    (2033, 1, 0x38), (2033, 3, 0x4800), (2033, 12, 0x800000),
    (2034, 2, 0x10000000), (2034, 3, 0xe), (2034, 12, 0x7000),
];
