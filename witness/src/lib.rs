//! Instances of the contract macros, for C13 (analysed, never run).  The declared order of
//! each instance is read back from the struct itself.
#![allow(dead_code)]
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;
use tp_contract_macro::{channels, states};

type Alias = i64;

#[states]
pub struct SAll {
    f0: u8,
    f1: u16,
    f2: u32,
    f3: u64,
    f4: i8,
    f5: i16,
    f6: i32,
    f7: i64,
    f8: bool,
    f9: f32,
    f10: f64,
    f11: String,
    f12: ObjectHandle,
    f13: ContractDataHandle,
}

#[states]
pub struct SReversed {
    zeta: ContractDataHandle,
    alpha: ObjectHandle,
    kind: String,
    new_: f64,
    id_: f32,
    handle: bool,
    a: i64,
    b1: i32,
    _hidden: i16,
    camelCase: i8,
    x: u64,
    y: u32,
    z: u16,
    len: u8,
}

#[states]
pub struct SOne {
    only: u8,
}

#[states]
pub struct SSame {
    d: i32,
    c: i32,
    b: i32,
    a: i32,
}

#[states]
pub struct SVis {
    pub pos: f32,
    pub(crate) speed: f64,
    r: Alias,
    c: std::primitive::u16,
}

#[states]
pub struct SEmpty {}

#[states]
pub struct SMany {
    p926: u16,
    p1773: u16,
    p1146: i64,
    p1754: bool,
    p1892: i16,
    p1599: String,
    p953: u8,
    p925: String,
    p1040: String,
    p1751: String,
    p1202: u32,
    p388: ObjectHandle,
    p378: i16,
    p1646: i16,
    p1048: u16,
    p974: f64,
    p1289: i64,
    p1257: u16,
    p1624: ContractDataHandle,
    p381: ContractDataHandle,
    p192: i32,
    p914: ObjectHandle,
    p621: u8,
    p290: ContractDataHandle,
    p185: i64,
    p1103: f32,
    p1658: u8,
    p1823: f32,
    p1420: f64,
    p1299: i32,
    p85: i32,
    p1219: f32,
    p811: u8,
    p1975: f32,
    p927: u16,
    p1339: u16,
    p1513: u16,
    p1260: f64,
    p1331: u16,
    p322: i8,
    p1276: i32,
    p30: String,
    p1703: i16,
    p1082: i32,
    p129: String,
    p121: String,
    p73: f32,
    p389: i64,
    p1801: i64,
    p495: i64,
    p1228: ContractDataHandle,
    p61: bool,
    p1593: u16,
    p950: bool,
    p668: ObjectHandle,
    p902: bool,
    p1210: u8,
    p1725: i8,
    p400: f32,
    p1063: u16,
    p478: i64,
    p1311: u8,
    p602: u64,
    p1023: String,
    p9: u16,
    p1356: i64,
    p174: ObjectHandle,
    p936: f32,
    p1341: f64,
    p569: i64,
    p833: i8,
    p1128: u8,
    p1908: i16,
    p1720: i8,
    p170: u32,
    p1449: f64,
    p520: f32,
    p645: u64,
    p1552: bool,
    p470: u32,
    p1050: ObjectHandle,
    p591: i16,
    p60: f64,
    p143: i64,
    p1153: i64,
    p1569: u64,
    p221: i16,
    p820: i32,
    p220: f64,
    p1733: i8,
    p595: u64,
    p791: f64,
    p136: i32,
    p1962: ObjectHandle,
    p34: ObjectHandle,
    p1735: ObjectHandle,
    p1402: u64,
    p1: u64,
    p437: i32,
    p429: u64,
    p1898: f32,
    p1864: i16,
    p107: u64,
    p962: u32,
    p768: u32,
    p1451: i64,
    p813: i16,
    p859: ContractDataHandle,
    p149: ContractDataHandle,
    p1159: u8,
    p406: String,
    p1594: u16,
    p1382: i8,
    p552: ContractDataHandle,
    p689: u32,
    p178: u16,
    p637: i64,
    p681: i64,
    p31: i8,
    p1974: u64,
    p839: ContractDataHandle,
    p1889: i32,
    p241: i32,
    p275: f64,
    p504: bool,
    p1447: i64,
    p206: f64,
    p22: i16,
    p122: String,
    p952: ContractDataHandle,
    p1632: ContractDataHandle,
    p997: f32,
    p363: i64,
    p1396: i16,
    p1145: u16,
    p385: ContractDataHandle,
    p916: u8,
    p1042: i8,
    p390: ContractDataHandle,
    p1498: f32,
    p1575: u8,
    p268: f64,
    p858: String,
    p1318: i8,
    p785: f32,
    p238: i16,
    p808: i8,
    p861: f64,
    p435: ObjectHandle,
    p0: f32,
    p1770: u8,
    p1988: f64,
    p1996: u32,
    p1645: i32,
    p1213: i64,
    p622: u64,
    p1812: u8,
    p40: ObjectHandle,
    p431: ContractDataHandle,
    p383: i8,
    p807: u64,
    p1749: ObjectHandle,
    p1232: u32,
    p1314: ObjectHandle,
    p1181: u8,
    p205: f64,
    p86: u16,
    p299: i64,
    p436: u16,
    p904: f64,
    p528: bool,
    p19: f64,
    p1582: f64,
    p1249: ObjectHandle,
    p673: i16,
    p1700: u16,
    p606: f64,
    p790: u64,
    p150: u64,
    p152: ContractDataHandle,
    p184: i64,
    p427: i8,
    p1193: u32,
    p1303: String,
    p497: u8,
    p1231: ObjectHandle,
    p755: i64,
    p761: bool,
    p1274: String,
    p928: u8,
    p260: u32,
    p1964: u64,
    p990: i8,
    p1704: ObjectHandle,
    p1176: i16,
    p277: bool,
    p1774: String,
    p374: bool,
    p1284: bool,
    p315: f32,
    p636: ObjectHandle,
    p1860: u32,
    p467: i32,
    p1674: ContractDataHandle,
    p1250: ObjectHandle,
    p510: String,
    p1485: u64,
    p324: u16,
    p1514: i32,
    p1288: String,
    p1925: i32,
    p1134: u32,
    p402: i64,
    p1406: i64,
    p1945: u64,
    p795: f64,
    p1806: u8,
    p988: i32,
    p1236: bool,
    p160: f32,
    p863: f64,
    p97: bool,
    p212: ObjectHandle,
    p223: ContractDataHandle,
    p79: i16,
    p1049: i64,
    p1971: i16,
    p522: f64,
    p488: u64,
    p1515: u16,
    p1442: String,
    p802: ContractDataHandle,
    p526: ContractDataHandle,
    p1686: ObjectHandle,
    p1853: f64,
    p1221: String,
    p1005: u16,
    p600: u64,
    p1065: u64,
    p359: i32,
    p1903: u16,
    p1475: i8,
    p140: bool,
    p258: ObjectHandle,
    p981: i16,
    p1338: i8,
    p1745: String,
    p1261: ContractDataHandle,
    p1258: u8,
    p151: i16,
    p573: bool,
    p434: u16,
    p1878: u8,
    p1873: i64,
    p417: i16,
    p1533: bool,
    p33: i32,
    p141: ObjectHandle,
    p551: i8,
    p842: i64,
    p912: u8,
    p123: u64,
    p95: ObjectHandle,
    p360: ContractDataHandle,
    p577: u16,
    p1087: i32,
    p1171: ObjectHandle,
    p1992: u8,
    p269: u32,
    p188: bool,
    p741: i16,
    p283: f64,
    p1824: ObjectHandle,
    p922: u32,
    p677: i64,
    p1345: u32,
    p1500: bool,
    p1415: String,
    p1068: bool,
    p1196: ContractDataHandle,
    p1939: f64,
    p287: String,
    p1208: i64,
    p71: i64,
    p1891: f32,
    p36: String,
    p972: u16,
    p732: ObjectHandle,
    p1435: u64,
    p638: i64,
    p68: bool,
    p43: bool,
    p1225: i8,
    p1302: ContractDataHandle,
    p153: String,
    p987: bool,
    p137: f64,
    p1496: u32,
    p653: bool,
    p279: bool,
}

#[channels]
pub struct CAll {
    f0: u8,
    f1: u16,
    f2: u32,
    f3: u64,
    f4: i8,
    f5: i16,
    f6: i32,
    f7: i64,
    f8: bool,
    f9: f32,
    f10: f64,
    f11: String,
    f12: ObjectHandle,
    f13: ContractDataHandle,
}

#[channels]
pub struct CReversed {
    zeta: ContractDataHandle,
    alpha: ObjectHandle,
    kind: String,
    new_: f64,
    id_: f32,
    handle: bool,
    a: i64,
    b1: i32,
    _hidden: i16,
    camelCase: i8,
    x: u64,
    y: u32,
    z: u16,
    len: u8,
}

#[channels]
pub struct COne {
    only: u8,
}

#[channels]
pub struct CSame {
    d: i32,
    c: i32,
    b: i32,
    a: i32,
}

#[channels]
pub struct CVis {
    pub pos: f32,
    pub(crate) speed: f64,
    r: Alias,
    c: std::primitive::u16,
}

#[channels]
pub struct CEmpty {}

#[channels]
pub struct CMany {
    p1727: f64,
    p1857: i8,
    p1146: i16,
    p525: u64,
    p638: f64,
    p1374: i32,
    p780: f32,
    p1955: u32,
    p1731: bool,
    p1781: u16,
    p1844: i32,
    p1248: bool,
    p426: i64,
    p623: f64,
    p1742: u64,
    p289: String,
    p1983: u16,
    p1115: ObjectHandle,
    p1073: i32,
    p559: f32,
    p1173: u8,
    p1019: u16,
    p411: f32,
    p841: u16,
    p1097: String,
    p234: u64,
    p1030: i8,
    p10: i64,
    p1239: i32,
    p772: bool,
    p56: u8,
    p1102: ObjectHandle,
    p1985: u64,
    p90: f64,
    p1056: i32,
    p1878: u8,
    p820: u16,
    p1114: i8,
    p1640: i8,
    p1152: i8,
    p249: i16,
    p1005: bool,
    p190: bool,
    p1415: bool,
    p341: i32,
    p134: bool,
    p1906: f32,
    p1103: ContractDataHandle,
    p939: u16,
    p847: f64,
    p1885: i64,
    p1959: ObjectHandle,
    p1639: f64,
    p1891: u16,
    p827: bool,
    p551: f32,
    p504: f64,
    p969: ObjectHandle,
    p1009: u8,
    p260: i32,
    p695: u32,
    p888: i32,
    p1845: i64,
    p1670: u32,
    p1916: ContractDataHandle,
    p1884: i64,
    p975: bool,
    p1075: f32,
    p649: f32,
    p222: u8,
    p392: i32,
    p859: i64,
    p1265: i32,
    p60: i8,
    p1894: bool,
    p532: i32,
    p265: f32,
    p1437: i8,
    p1595: i16,
    p46: bool,
    p72: i8,
    p397: i64,
    p318: f64,
    p465: i8,
    p24: bool,
    p1407: i8,
    p581: f64,
    p659: String,
    p1481: String,
    p727: i8,
    p500: u8,
    p1269: u8,
    p1021: ObjectHandle,
    p214: u64,
    p1023: f32,
    p1496: u8,
    p1192: f64,
    p251: u32,
    p1744: i32,
    p1045: ObjectHandle,
    p1276: f64,
    p513: i32,
    p1469: u8,
    p404: i16,
    p1436: String,
    p1086: i32,
    p1799: u8,
    p894: f32,
    p47: String,
    p769: i16,
    p1296: u16,
    p846: ObjectHandle,
    p1689: u64,
    p1084: i32,
    p1261: String,
    p327: i64,
    p418: i8,
    p1769: ObjectHandle,
    p1292: u64,
    p1093: u8,
    p1307: bool,
    p447: u16,
    p442: ObjectHandle,
    p1743: String,
    p1111: i64,
    p1252: u32,
    p1201: ContractDataHandle,
    p1754: u64,
    p279: f32,
    p476: String,
    p1873: u16,
    p1517: u8,
    p1285: f32,
    p1659: i32,
    p711: i64,
    p1848: u16,
    p370: u64,
    p646: ContractDataHandle,
    p1235: u8,
    p645: i16,
    p1824: bool,
    p1889: u32,
    p398: u16,
    p446: i16,
    p1593: i64,
    p1817: u32,
    p198: f64,
    p274: i32,
    p1820: i64,
    p490: f32,
    p271: i8,
    p1488: f64,
    p180: f32,
    p531: f64,
    p794: i32,
    p890: i16,
    p1704: ObjectHandle,
    p1927: String,
    p863: bool,
    p1112: ContractDataHandle,
    p1617: u32,
    p1443: i8,
    p258: String,
    p410: u32,
    p824: u64,
    p1286: i64,
    p1403: u16,
    p1636: bool,
    p36: i8,
    p196: ObjectHandle,
    p1167: bool,
    p1397: f32,
    p732: ContractDataHandle,
    p1866: i16,
    p1681: i8,
    p739: i8,
    p236: f32,
    p1035: f64,
    p1299: String,
    p1552: f32,
    p703: String,
    p1029: f32,
    p1404: u64,
    p1705: f64,
    p387: i8,
    p1644: ObjectHandle,
    p144: u64,
    p987: u64,
    p217: u64,
    p49: bool,
    p76: f64,
    p1560: u64,
    p1129: f64,
    p1256: u8,
    p1054: f64,
    p1853: u8,
    p1164: u8,
    p985: i8,
    p300: i8,
    p388: i32,
    p377: u8,
    p235: f32,
    p417: u8,
    p353: u16,
    p1720: u64,
    p323: bool,
    p579: i8,
    p1898: u16,
    p1378: ObjectHandle,
    p195: u16,
    p1187: f64,
    p126: u32,
    p275: bool,
    p1948: u64,
    p1394: f64,
    p946: i16,
    p158: i64,
    p1566: i64,
    p669: i16,
    p800: u64,
    p956: i16,
    p873: i16,
    p1055: i64,
    p726: String,
    p880: u32,
    p430: ContractDataHandle,
    p1230: ContractDataHandle,
    p764: u16,
    p27: ObjectHandle,
    p1298: u16,
    p1435: i64,
    p83: ObjectHandle,
    p1729: ContractDataHandle,
    p371: f32,
    p835: ContractDataHandle,
    p929: ObjectHandle,
    p736: ObjectHandle,
    p1514: u64,
    p758: i64,
    p830: i32,
    p1887: String,
    p399: i8,
    p1238: i32,
    p338: ObjectHandle,
    p194: u32,
    p1049: i16,
    p1622: u32,
    p31: f64,
    p662: ContractDataHandle,
    p1829: f32,
    p173: i16,
    p1641: i8,
    p1724: bool,
    p1793: ObjectHandle,
    p1762: String,
    p1861: ContractDataHandle,
    p1288: u32,
    p1924: i32,
    p828: f64,
    p1166: i16,
    p1227: f32,
    p391: u16,
    p1032: i64,
    p1197: i16,
    p698: u16,
    p1648: bool,
    p1561: u16,
    p528: i32,
    p572: f32,
    p238: f32,
    p1524: i64,
    p1521: ContractDataHandle,
    p1668: f64,
    p1912: i64,
    p272: i8,
    p1836: ContractDataHandle,
    p675: ObjectHandle,
    p1801: u8,
    p1422: u16,
    p757: i8,
    p1571: u64,
    p884: f64,
    p1567: f32,
    p423: u16,
    p1479: String,
    p378: i8,
    p1632: i64,
    p699: String,
    p617: ObjectHandle,
    p960: String,
    p206: i16,
    p21: i8,
    p1818: u32,
    p728: u64,
    p1308: i16,
    p1277: f64,
    p101: String,
    p475: i16,
    p1934: i16,
    p1968: u16,
}
