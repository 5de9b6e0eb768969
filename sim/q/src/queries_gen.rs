// Written by gen_queries.py
sq!(Q0; v0: EcsIds);
sq!(Q1; v0: &'static P4);
sq!(Q2; v0: &'static mut P4);
sq!(Q3; v0: &'static Hp);
sq!(Q4; v0: &'static mut Hp);
sq!(Q5; v0: &'static Tr24);
sq!(Q6; v0: &'static mut Tr24);
sq!(Q7; v0: &'static Big);
sq!(Q8; v0: &'static mut Big);
sq!(Q9; v0: &'static Al32);
sq!(Q10; v0: &'static mut Al32);
sq!(Q11; v0: &'static Zd);
sq!(Q12; v0: &'static mut Zd);
sq!(Q13; v0: &'static Zp);
sq!(Q14; v0: &'static mut Zp);
sq!(Q15; v0: &'static U8);
sq!(Q16; v0: &'static mut U8);
sq!(Q17; v0: &'static U24);
sq!(Q18; v0: &'static mut U24);
sq!(Q19; v0: &'static Za);
sq!(Q20; v0: &'static mut Za);
sq!(Q21; v0: &'static Tr12);
sq!(Q22; v0: &'static mut Tr12);
sq!(Q23; v0: &'static U16);
sq!(Q24; v0: &'static mut U16);
sq!(Q25; v0: EcsIds, v1: &'static P4);
sq!(Q26; v0: EcsIds, v1: &'static Hp);
sq!(Q27; v0: EcsIds, v1: &'static Tr24);
sq!(Q28; v0: EcsIds, v1: &'static Big);
sq!(Q29; v0: EcsIds, v1: &'static Al32);
sq!(Q30; v0: EcsIds, v1: &'static Zd);
sq!(Q31; v0: EcsIds, v1: &'static Zp);
sq!(Q32; v0: EcsIds, v1: &'static U8);
sq!(Q33; v0: EcsIds, v1: &'static U24);
sq!(Q34; v0: EcsIds, v1: &'static Za);
sq!(Q35; v0: EcsIds, v1: &'static Tr12);
sq!(Q36; v0: EcsIds, v1: &'static U16);
sq!(Q37; v0: &'static P4, v1: &'static Tr24);
sq!(Q38; v0: &'static P4, v1: &'static mut Tr24);
sq!(Q39; v0: &'static mut P4, v1: &'static Tr24);
sq!(Q40; v0: &'static mut P4, v1: &'static mut Tr24);
sq!(Q41; v0: &'static P4, v1: &'static Tr12);
sq!(Q42; v0: &'static P4, v1: &'static mut Tr12);
sq!(Q43; v0: &'static mut P4, v1: &'static Tr12);
sq!(Q44; v0: &'static mut P4, v1: &'static mut Tr12);
sq!(Q45; v0: &'static Tr24, v1: &'static P4);
sq!(Q46; v0: &'static Tr24, v1: &'static mut P4);
sq!(Q47; v0: &'static mut Tr24, v1: &'static P4);
sq!(Q48; v0: &'static mut Tr24, v1: &'static mut P4);
sq!(Q49; v0: &'static Tr24, v1: &'static Tr12);
sq!(Q50; v0: &'static Tr24, v1: &'static mut Tr12);
sq!(Q51; v0: &'static mut Tr24, v1: &'static Tr12);
sq!(Q52; v0: &'static mut Tr24, v1: &'static mut Tr12);
sq!(Q53; v0: &'static Tr12, v1: &'static P4);
sq!(Q54; v0: &'static Tr12, v1: &'static mut P4);
sq!(Q55; v0: &'static mut Tr12, v1: &'static P4);
sq!(Q56; v0: &'static mut Tr12, v1: &'static mut P4);
sq!(Q57; v0: &'static Tr12, v1: &'static Tr24);
sq!(Q58; v0: &'static Tr12, v1: &'static mut Tr24);
sq!(Q59; v0: &'static mut Tr12, v1: &'static Tr24);
sq!(Q60; v0: &'static mut Tr12, v1: &'static mut Tr24);
sq!(Q61; v0: &'static P4, v1: &'static mut Tr24, v2: &'static Tr12);
sq!(Q62; v0: &'static mut P4, v1: &'static mut Tr24, v2: &'static mut Tr12);
sq!(Q63; v0: &'static P4, v1: &'static mut Tr12, v2: &'static Tr24);
sq!(Q64; v0: &'static mut P4, v1: &'static mut Tr12, v2: &'static mut Tr24);
sq!(Q65; v0: &'static Tr24, v1: &'static mut P4, v2: &'static Tr12);
sq!(Q66; v0: &'static mut Tr24, v1: &'static mut P4, v2: &'static mut Tr12);
sq!(Q67; v0: &'static Tr24, v1: &'static mut Tr12, v2: &'static P4);
sq!(Q68; v0: &'static mut Tr24, v1: &'static mut Tr12, v2: &'static mut P4);
sq!(Q69; v0: &'static Tr12, v1: &'static mut P4, v2: &'static Tr24);
sq!(Q70; v0: &'static mut Tr12, v1: &'static mut P4, v2: &'static mut Tr24);
sq!(Q71; v0: &'static Tr12, v1: &'static mut Tr24, v2: &'static P4);
sq!(Q72; v0: &'static mut Tr12, v1: &'static mut Tr24, v2: &'static mut P4);
sq!(Q73; v0: &'static mut Zd, v1: &'static Tr24);
sq!(Q74; v0: &'static Hp, v1: &'static mut U24);
sq!(Q75; v0: &'static Za, v1: &'static P4);
sq!(Q76; v0: &'static mut Hp, v1: &'static Zp);
sq!(Q77; v0: &'static mut Big, v1: &'static Hp);
sq!(Q78; v0: &'static Za, v1: &'static Hp);
sq!(Q79; v0: &'static mut Za, v1: &'static U16);
sq!(Q80; v0: &'static Big, v1: &'static mut P4);
sq!(Q81; v0: &'static Zp, v1: &'static mut Tr24);
sq!(Q82; v0: &'static U24, v1: &'static Tr12);
sq!(Q83; v0: &'static Za, v1: &'static mut U16);
sq!(Q84; v0: &'static Hp, v1: &'static U24);
sq!(Q85; v0: &'static mut Za, v1: &'static mut Big);
sq!(Q86; v0: &'static mut Zd, v1: &'static mut U8);
sq!(Q87; v0: &'static Al32, v1: EcsIds, v2: &'static mut Tr24);
sq!(Q88; v0: &'static U16, v1: EcsIds, v2: &'static mut Al32);
sq!(Q89; v0: &'static Tr24, v1: EcsIds, v2: &'static mut Zp);
sq!(Q90; v0: &'static mut Za, v1: &'static mut Za, v2: &'static U16);
sq!(Q91; v0: &'static U16, v1: EcsIds, v2: &'static mut Hp);
sq!(Q92; v0: &'static mut Tr12, v1: &'static mut Tr12, v2: &'static P4);
sq!(Q93; v0: &'static P4, v1: EcsIds, v2: &'static mut Al32);
sq!(Q94; v0: &'static mut Hp, v1: &'static mut Tr24, v2: &'static mut Hp);
sq!(Q95; v0: EcsIds, v1: &'static Zp, v2: &'static Zd);
sq!(Q96; v0: EcsIds, v1: &'static mut Tr12, v2: &'static U16);
sq!(Q97; v0: &'static Tr24, v1: &'static Hp, v2: &'static P4, v3: &'static mut Tr12);
sq!(Q98; v0: &'static Tr24, v1: &'static Tr12, v2: &'static P4, v3: &'static Hp);
sq!(Q99; v0: &'static Hp, v1: &'static mut P4, v2: &'static Tr12, v3: &'static Tr24);
sq!(Q100; v0: &'static mut Za, v1: &'static Zp, v2: &'static Tr24, v3: EcsIds);
sq!(Q101; v0: EcsIds, v1: &'static Tr24, v2: &'static Tr12, v3: &'static mut P4);
sq!(Q102; v0: &'static Hp, v1: &'static Tr24, v2: &'static U8, v3: &'static P4, v4: &'static mut Tr12);
sq!(Q103; v0: &'static Tr12, v1: &'static P4, v2: &'static Hp, v3: &'static U8, v4: &'static Tr24);
sq!(Q104; v0: &'static P4, v1: &'static Hp, v2: EcsIds, v3: &'static Tr12, v4: &'static U8);
sq!(Q105; v0: &'static mut U8, v1: &'static Hp, v2: &'static Tr24, v3: &'static Tr12, v4: &'static U8);
sq!(Q106; v0: &'static P4, v1: &'static Hp, v2: &'static Tr24, v3: &'static Tr12, v4: &'static P4);
sq!(Q107; v0: &'static Big, v1: &'static mut U8, v2: &'static Za, v3: &'static mut P4, v4: &'static Tr12);
sq!(Q108; v0: &'static Hp, v1: EcsIds, v2: &'static mut U8, v3: &'static P4, v4: &'static mut Tr12);
sq!(Q109; v0: &'static P4, v1: &'static Tr24, v2: &'static Za, v3: &'static U8, v4: &'static Tr12, v5: &'static mut Al32);
sq!(Q110; v0: &'static Tr24, v1: &'static P4, v2: &'static Tr12, v3: &'static Hp, v4: &'static U16, v5: &'static Big);
sq!(Q111; v0: &'static mut U8, v1: &'static Hp, v2: &'static mut Zd, v3: EcsIds, v4: &'static mut P4, v5: &'static mut Tr24);
sq!(Q112; v0: EcsIds, v1: &'static mut Tr12, v2: &'static Tr24, v3: &'static U8, v4: &'static P4, v5: &'static Zd);
sq!(Q113; v0: &'static P4, v1: &'static mut Hp, v2: &'static mut Tr12, v3: &'static Tr24, v4: &'static mut Zd, v5: &'static U8);
sq!(Q114; v0: &'static U8, v1: &'static Big, v2: &'static Zd, v3: &'static Hp, v4: &'static Tr24, v5: &'static P4, v6: &'static mut Tr12);
sq!(Q115; v0: &'static Zd, v1: &'static Tr24, v2: &'static Al32, v3: &'static Tr12, v4: &'static U8, v5: &'static Hp, v6: &'static U16);
sq!(Q116; v0: EcsIds, v1: &'static mut Tr24, v2: &'static Hp, v3: &'static Big, v4: &'static P4, v5: &'static mut Tr12, v6: &'static mut Zd);
sq!(Q117; v0: &'static Hp, v1: &'static Big, v2: &'static U16, v3: &'static Za, v4: EcsIds, v5: &'static Tr24, v6: &'static P4);
sq!(Q118; v0: &'static mut Zd, v1: &'static Hp, v2: &'static Tr24, v3: &'static U8, v4: EcsIds, v5: &'static Tr12, v6: &'static P4);
sq!(Q119; v0: &'static Zp, v1: &'static Al32, v2: &'static Za, v3: &'static Tr24, v4: &'static P4, v5: &'static Tr12, v6: &'static Zd, v7: &'static mut Hp);
sq!(Q120; v0: &'static U24, v1: &'static Big, v2: &'static Al32, v3: &'static U8, v4: &'static Tr24, v5: &'static U16, v6: &'static Zp, v7: &'static P4);
sq!(Q121; v0: &'static U8, v1: &'static mut Big, v2: &'static U16, v3: &'static mut Hp, v4: &'static Zp, v5: &'static Zd, v6: &'static Tr12, v7: &'static Al32);
sq!(Q122; v0: &'static mut Al32, v1: &'static Big, v2: &'static U16, v3: &'static Hp, v4: &'static Zp, v5: &'static Zd, v6: &'static Tr12, v7: &'static Al32);
sq!(Q123; v0: &'static U8, v1: &'static Big, v2: &'static U16, v3: &'static Hp, v4: &'static Zp, v5: &'static Zd, v6: &'static Tr12, v7: &'static U8);
sq!(Q124; v0: &'static mut Big, v1: &'static mut Zd, v2: EcsIds, v3: &'static mut Al32, v4: &'static P4, v5: &'static mut Tr24, v6: &'static Hp, v7: &'static U8);
sq!(Q125; v0: &'static Hp, v1: &'static Zd, v2: &'static Al32, v3: &'static mut P4, v4: &'static mut Big, v5: &'static Tr12, v6: &'static Tr24, v7: &'static mut U8);
sq!(Q126; v0: &'static P4, v1: &'static Tr12, v2: &'static Zd, v3: &'static Zp, v4: &'static Al32, v5: &'static Big, v6: &'static U8, v7: &'static Tr24, v8: &'static mut Hp);
sq!(Q127; v0: &'static Big, v1: &'static U8, v2: &'static Tr24, v3: &'static Hp, v4: &'static Zp, v5: &'static Al32, v6: &'static Zd, v7: &'static Tr12, v8: &'static P4);
sq!(Q128; v0: &'static P4, v1: &'static Hp, v2: &'static Tr12, v3: &'static Al32, v4: &'static mut Big, v5: &'static Zd, v6: &'static Zp, v7: &'static mut U8, v8: &'static mut Tr24);
sq!(Q129; v0: &'static U8, v1: EcsIds, v2: &'static mut Big, v3: &'static Tr24, v4: &'static Zp, v5: &'static Zd, v6: &'static Tr12, v7: &'static Al32, v8: &'static mut P4);
sq!(Q130; v0: &'static mut Zp, v1: &'static mut Zd, v2: &'static mut Big, v3: &'static Tr12, v4: &'static Al32, v5: &'static mut P4, v6: &'static U8, v7: &'static Tr24, v8: &'static Hp);
sq!(Q131; v0: &'static Hp, v1: &'static U8, v2: &'static Tr24, v3: &'static Zp, v4: &'static Al32, v5: &'static P4, v6: &'static Tr12, v7: &'static U24, v8: &'static Zd, v9: &'static mut Big);
sq!(Q132; v0: &'static Zd, v1: &'static Tr24, v2: &'static P4, v3: &'static Big, v4: &'static U24, v5: &'static Al32, v6: &'static Zp, v7: &'static Hp, v8: &'static Tr12, v9: &'static U8);
sq!(Q133; v0: &'static Tr24, v1: &'static P4, v2: &'static mut Al32, v3: &'static mut Hp, v4: &'static Big, v5: &'static U24, v6: &'static Tr12, v7: EcsIds, v8: &'static U8, v9: &'static Zd);
sq!(Q134; v0: &'static mut Zd, v1: &'static P4, v2: &'static Al32, v3: &'static Hp, v4: &'static Big, v5: &'static U24, v6: &'static Tr12, v7: &'static Zp, v8: &'static U8, v9: &'static Zd);
sq!(Q135; v0: &'static Tr24, v1: &'static P4, v2: &'static Al32, v3: &'static Hp, v4: &'static Big, v5: &'static U24, v6: &'static Tr12, v7: &'static Zp, v8: &'static U8, v9: &'static Tr24);
sq!(Q136; v0: EcsIds, v1: &'static mut P4, v2: &'static Hp, v3: &'static U8, v4: &'static Big, v5: &'static mut Al32, v6: &'static mut Tr12, v7: &'static Tr24, v8: &'static Zp, v9: &'static Zd);
sq!(Q137; v0: &'static Tr24, v1: &'static U8, v2: &'static mut P4, v3: &'static Tr12, v4: &'static mut Al32, v5: &'static U24, v6: &'static Zd, v7: &'static Zp, v8: &'static Big, v9: &'static mut Hp);
sq!(Q138; v0: EcsIds, v1: EcsIds);
sq!(Q139; v0: &'static mut P4, v1: EcsIds);
sq!(Q140; v0: &'static mut Tr24, v1: EcsIds, v2: &'static P4);
sq!(Q141; v0: &'static mut P4, v1: &'static mut P4);
sq!(Q142; v0: &'static mut P4, v1: &'static P4);
sq!(Q143; v0: &'static P4, v1: &'static mut P4);
sq!(Q144; v0: &'static P4, v1: &'static P4);
sq!(Q145; v0: &'static mut Tr24, v1: &'static mut Tr24);
sq!(Q146; v0: &'static mut Tr24, v1: &'static Tr24);
sq!(Q147; v0: &'static Tr24, v1: &'static mut Tr24);
sq!(Q148; v0: &'static Tr24, v1: &'static Tr24);
sq!(Q149; v0: &'static P4, v1: &'static mut Tr24, v2: &'static P4);
sq!(Q150; v0: &'static Tr24, v1: &'static P4, v2: &'static Tr24);
sq!(Q151; v0: &'static mut P4, v1: &'static Tr24, v2: &'static mut P4);
sq!(Q152; v0: &'static Tr12, v1: &'static mut P4, v2: &'static mut Tr12);
pub const QUERIES: [&[Acc]; 153] = [
    &[Acc::E],
    &[Acc::R(0)],
    &[Acc::M(0)],
    &[Acc::R(1)],
    &[Acc::M(1)],
    &[Acc::R(2)],
    &[Acc::M(2)],
    &[Acc::R(3)],
    &[Acc::M(3)],
    &[Acc::R(4)],
    &[Acc::M(4)],
    &[Acc::R(5)],
    &[Acc::M(5)],
    &[Acc::R(6)],
    &[Acc::M(6)],
    &[Acc::R(7)],
    &[Acc::M(7)],
    &[Acc::R(8)],
    &[Acc::M(8)],
    &[Acc::R(9)],
    &[Acc::M(9)],
    &[Acc::R(10)],
    &[Acc::M(10)],
    &[Acc::R(11)],
    &[Acc::M(11)],
    &[Acc::E, Acc::R(0)],
    &[Acc::E, Acc::R(1)],
    &[Acc::E, Acc::R(2)],
    &[Acc::E, Acc::R(3)],
    &[Acc::E, Acc::R(4)],
    &[Acc::E, Acc::R(5)],
    &[Acc::E, Acc::R(6)],
    &[Acc::E, Acc::R(7)],
    &[Acc::E, Acc::R(8)],
    &[Acc::E, Acc::R(9)],
    &[Acc::E, Acc::R(10)],
    &[Acc::E, Acc::R(11)],
    &[Acc::R(0), Acc::R(2)],
    &[Acc::R(0), Acc::M(2)],
    &[Acc::M(0), Acc::R(2)],
    &[Acc::M(0), Acc::M(2)],
    &[Acc::R(0), Acc::R(10)],
    &[Acc::R(0), Acc::M(10)],
    &[Acc::M(0), Acc::R(10)],
    &[Acc::M(0), Acc::M(10)],
    &[Acc::R(2), Acc::R(0)],
    &[Acc::R(2), Acc::M(0)],
    &[Acc::M(2), Acc::R(0)],
    &[Acc::M(2), Acc::M(0)],
    &[Acc::R(2), Acc::R(10)],
    &[Acc::R(2), Acc::M(10)],
    &[Acc::M(2), Acc::R(10)],
    &[Acc::M(2), Acc::M(10)],
    &[Acc::R(10), Acc::R(0)],
    &[Acc::R(10), Acc::M(0)],
    &[Acc::M(10), Acc::R(0)],
    &[Acc::M(10), Acc::M(0)],
    &[Acc::R(10), Acc::R(2)],
    &[Acc::R(10), Acc::M(2)],
    &[Acc::M(10), Acc::R(2)],
    &[Acc::M(10), Acc::M(2)],
    &[Acc::R(0), Acc::M(2), Acc::R(10)],
    &[Acc::M(0), Acc::M(2), Acc::M(10)],
    &[Acc::R(0), Acc::M(10), Acc::R(2)],
    &[Acc::M(0), Acc::M(10), Acc::M(2)],
    &[Acc::R(2), Acc::M(0), Acc::R(10)],
    &[Acc::M(2), Acc::M(0), Acc::M(10)],
    &[Acc::R(2), Acc::M(10), Acc::R(0)],
    &[Acc::M(2), Acc::M(10), Acc::M(0)],
    &[Acc::R(10), Acc::M(0), Acc::R(2)],
    &[Acc::M(10), Acc::M(0), Acc::M(2)],
    &[Acc::R(10), Acc::M(2), Acc::R(0)],
    &[Acc::M(10), Acc::M(2), Acc::M(0)],
    &[Acc::M(5), Acc::R(2)],
    &[Acc::R(1), Acc::M(8)],
    &[Acc::R(9), Acc::R(0)],
    &[Acc::M(1), Acc::R(6)],
    &[Acc::M(3), Acc::R(1)],
    &[Acc::R(9), Acc::R(1)],
    &[Acc::M(9), Acc::R(11)],
    &[Acc::R(3), Acc::M(0)],
    &[Acc::R(6), Acc::M(2)],
    &[Acc::R(8), Acc::R(10)],
    &[Acc::R(9), Acc::M(11)],
    &[Acc::R(1), Acc::R(8)],
    &[Acc::M(9), Acc::M(3)],
    &[Acc::M(5), Acc::M(7)],
    &[Acc::R(4), Acc::E, Acc::M(2)],
    &[Acc::R(11), Acc::E, Acc::M(4)],
    &[Acc::R(2), Acc::E, Acc::M(6)],
    &[Acc::M(9), Acc::M(9), Acc::R(11)],
    &[Acc::R(11), Acc::E, Acc::M(1)],
    &[Acc::M(10), Acc::M(10), Acc::R(0)],
    &[Acc::R(0), Acc::E, Acc::M(4)],
    &[Acc::M(1), Acc::M(2), Acc::M(1)],
    &[Acc::E, Acc::R(6), Acc::R(5)],
    &[Acc::E, Acc::M(10), Acc::R(11)],
    &[Acc::R(2), Acc::R(1), Acc::R(0), Acc::M(10)],
    &[Acc::R(2), Acc::R(10), Acc::R(0), Acc::R(1)],
    &[Acc::R(1), Acc::M(0), Acc::R(10), Acc::R(2)],
    &[Acc::M(9), Acc::R(6), Acc::R(2), Acc::E],
    &[Acc::E, Acc::R(2), Acc::R(10), Acc::M(0)],
    &[Acc::R(1), Acc::R(2), Acc::R(7), Acc::R(0), Acc::M(10)],
    &[Acc::R(10), Acc::R(0), Acc::R(1), Acc::R(7), Acc::R(2)],
    &[Acc::R(0), Acc::R(1), Acc::E, Acc::R(10), Acc::R(7)],
    &[Acc::M(7), Acc::R(1), Acc::R(2), Acc::R(10), Acc::R(7)],
    &[Acc::R(0), Acc::R(1), Acc::R(2), Acc::R(10), Acc::R(0)],
    &[Acc::R(3), Acc::M(7), Acc::R(9), Acc::M(0), Acc::R(10)],
    &[Acc::R(1), Acc::E, Acc::M(7), Acc::R(0), Acc::M(10)],
    &[Acc::R(0), Acc::R(2), Acc::R(9), Acc::R(7), Acc::R(10), Acc::M(4)],
    &[Acc::R(2), Acc::R(0), Acc::R(10), Acc::R(1), Acc::R(11), Acc::R(3)],
    &[Acc::M(7), Acc::R(1), Acc::M(5), Acc::E, Acc::M(0), Acc::M(2)],
    &[Acc::E, Acc::M(10), Acc::R(2), Acc::R(7), Acc::R(0), Acc::R(5)],
    &[Acc::R(0), Acc::M(1), Acc::M(10), Acc::R(2), Acc::M(5), Acc::R(7)],
    &[Acc::R(7), Acc::R(3), Acc::R(5), Acc::R(1), Acc::R(2), Acc::R(0), Acc::M(10)],
    &[Acc::R(5), Acc::R(2), Acc::R(4), Acc::R(10), Acc::R(7), Acc::R(1), Acc::R(11)],
    &[Acc::E, Acc::M(2), Acc::R(1), Acc::R(3), Acc::R(0), Acc::M(10), Acc::M(5)],
    &[Acc::R(1), Acc::R(3), Acc::R(11), Acc::R(9), Acc::E, Acc::R(2), Acc::R(0)],
    &[Acc::M(5), Acc::R(1), Acc::R(2), Acc::R(7), Acc::E, Acc::R(10), Acc::R(0)],
    &[Acc::R(6), Acc::R(4), Acc::R(9), Acc::R(2), Acc::R(0), Acc::R(10), Acc::R(5), Acc::M(1)],
    &[Acc::R(8), Acc::R(3), Acc::R(4), Acc::R(7), Acc::R(2), Acc::R(11), Acc::R(6), Acc::R(0)],
    &[Acc::R(7), Acc::M(3), Acc::R(11), Acc::M(1), Acc::R(6), Acc::R(5), Acc::R(10), Acc::R(4)],
    &[Acc::M(4), Acc::R(3), Acc::R(11), Acc::R(1), Acc::R(6), Acc::R(5), Acc::R(10), Acc::R(4)],
    &[Acc::R(7), Acc::R(3), Acc::R(11), Acc::R(1), Acc::R(6), Acc::R(5), Acc::R(10), Acc::R(7)],
    &[Acc::M(3), Acc::M(5), Acc::E, Acc::M(4), Acc::R(0), Acc::M(2), Acc::R(1), Acc::R(7)],
    &[Acc::R(1), Acc::R(5), Acc::R(4), Acc::M(0), Acc::M(3), Acc::R(10), Acc::R(2), Acc::M(7)],
    &[Acc::R(0), Acc::R(10), Acc::R(5), Acc::R(6), Acc::R(4), Acc::R(3), Acc::R(7), Acc::R(2), Acc::M(1)],
    &[Acc::R(3), Acc::R(7), Acc::R(2), Acc::R(1), Acc::R(6), Acc::R(4), Acc::R(5), Acc::R(10), Acc::R(0)],
    &[Acc::R(0), Acc::R(1), Acc::R(10), Acc::R(4), Acc::M(3), Acc::R(5), Acc::R(6), Acc::M(7), Acc::M(2)],
    &[Acc::R(7), Acc::E, Acc::M(3), Acc::R(2), Acc::R(6), Acc::R(5), Acc::R(10), Acc::R(4), Acc::M(0)],
    &[Acc::M(6), Acc::M(5), Acc::M(3), Acc::R(10), Acc::R(4), Acc::M(0), Acc::R(7), Acc::R(2), Acc::R(1)],
    &[Acc::R(1), Acc::R(7), Acc::R(2), Acc::R(6), Acc::R(4), Acc::R(0), Acc::R(10), Acc::R(8), Acc::R(5), Acc::M(3)],
    &[Acc::R(5), Acc::R(2), Acc::R(0), Acc::R(3), Acc::R(8), Acc::R(4), Acc::R(6), Acc::R(1), Acc::R(10), Acc::R(7)],
    &[Acc::R(2), Acc::R(0), Acc::M(4), Acc::M(1), Acc::R(3), Acc::R(8), Acc::R(10), Acc::E, Acc::R(7), Acc::R(5)],
    &[Acc::M(5), Acc::R(0), Acc::R(4), Acc::R(1), Acc::R(3), Acc::R(8), Acc::R(10), Acc::R(6), Acc::R(7), Acc::R(5)],
    &[Acc::R(2), Acc::R(0), Acc::R(4), Acc::R(1), Acc::R(3), Acc::R(8), Acc::R(10), Acc::R(6), Acc::R(7), Acc::R(2)],
    &[Acc::E, Acc::M(0), Acc::R(1), Acc::R(7), Acc::R(3), Acc::M(4), Acc::M(10), Acc::R(2), Acc::R(6), Acc::R(5)],
    &[Acc::R(2), Acc::R(7), Acc::M(0), Acc::R(10), Acc::M(4), Acc::R(8), Acc::R(5), Acc::R(6), Acc::R(3), Acc::M(1)],
    &[Acc::E, Acc::E],
    &[Acc::M(0), Acc::E],
    &[Acc::M(2), Acc::E, Acc::R(0)],
    &[Acc::M(0), Acc::M(0)],
    &[Acc::M(0), Acc::R(0)],
    &[Acc::R(0), Acc::M(0)],
    &[Acc::R(0), Acc::R(0)],
    &[Acc::M(2), Acc::M(2)],
    &[Acc::M(2), Acc::R(2)],
    &[Acc::R(2), Acc::M(2)],
    &[Acc::R(2), Acc::R(2)],
    &[Acc::R(0), Acc::M(2), Acc::R(0)],
    &[Acc::R(2), Acc::R(0), Acc::R(2)],
    &[Acc::M(0), Acc::R(2), Acc::M(0)],
    &[Acc::R(10), Acc::M(0), Acc::M(10)],
];
pub fn open(i: usize, w: &World) -> Box<dyn LiveQuery + '_> {
    match i {
        0 => Box::new(Q0::open(w)),
        1 => Box::new(Q1::open(w)),
        2 => Box::new(Q2::open(w)),
        3 => Box::new(Q3::open(w)),
        4 => Box::new(Q4::open(w)),
        5 => Box::new(Q5::open(w)),
        6 => Box::new(Q6::open(w)),
        7 => Box::new(Q7::open(w)),
        8 => Box::new(Q8::open(w)),
        9 => Box::new(Q9::open(w)),
        10 => Box::new(Q10::open(w)),
        11 => Box::new(Q11::open(w)),
        12 => Box::new(Q12::open(w)),
        13 => Box::new(Q13::open(w)),
        14 => Box::new(Q14::open(w)),
        15 => Box::new(Q15::open(w)),
        16 => Box::new(Q16::open(w)),
        17 => Box::new(Q17::open(w)),
        18 => Box::new(Q18::open(w)),
        19 => Box::new(Q19::open(w)),
        20 => Box::new(Q20::open(w)),
        21 => Box::new(Q21::open(w)),
        22 => Box::new(Q22::open(w)),
        23 => Box::new(Q23::open(w)),
        24 => Box::new(Q24::open(w)),
        25 => Box::new(Q25::open(w)),
        26 => Box::new(Q26::open(w)),
        27 => Box::new(Q27::open(w)),
        28 => Box::new(Q28::open(w)),
        29 => Box::new(Q29::open(w)),
        30 => Box::new(Q30::open(w)),
        31 => Box::new(Q31::open(w)),
        32 => Box::new(Q32::open(w)),
        33 => Box::new(Q33::open(w)),
        34 => Box::new(Q34::open(w)),
        35 => Box::new(Q35::open(w)),
        36 => Box::new(Q36::open(w)),
        37 => Box::new(Q37::open(w)),
        38 => Box::new(Q38::open(w)),
        39 => Box::new(Q39::open(w)),
        40 => Box::new(Q40::open(w)),
        41 => Box::new(Q41::open(w)),
        42 => Box::new(Q42::open(w)),
        43 => Box::new(Q43::open(w)),
        44 => Box::new(Q44::open(w)),
        45 => Box::new(Q45::open(w)),
        46 => Box::new(Q46::open(w)),
        47 => Box::new(Q47::open(w)),
        48 => Box::new(Q48::open(w)),
        49 => Box::new(Q49::open(w)),
        50 => Box::new(Q50::open(w)),
        51 => Box::new(Q51::open(w)),
        52 => Box::new(Q52::open(w)),
        53 => Box::new(Q53::open(w)),
        54 => Box::new(Q54::open(w)),
        55 => Box::new(Q55::open(w)),
        56 => Box::new(Q56::open(w)),
        57 => Box::new(Q57::open(w)),
        58 => Box::new(Q58::open(w)),
        59 => Box::new(Q59::open(w)),
        60 => Box::new(Q60::open(w)),
        61 => Box::new(Q61::open(w)),
        62 => Box::new(Q62::open(w)),
        63 => Box::new(Q63::open(w)),
        64 => Box::new(Q64::open(w)),
        65 => Box::new(Q65::open(w)),
        66 => Box::new(Q66::open(w)),
        67 => Box::new(Q67::open(w)),
        68 => Box::new(Q68::open(w)),
        69 => Box::new(Q69::open(w)),
        70 => Box::new(Q70::open(w)),
        71 => Box::new(Q71::open(w)),
        72 => Box::new(Q72::open(w)),
        73 => Box::new(Q73::open(w)),
        74 => Box::new(Q74::open(w)),
        75 => Box::new(Q75::open(w)),
        76 => Box::new(Q76::open(w)),
        77 => Box::new(Q77::open(w)),
        78 => Box::new(Q78::open(w)),
        79 => Box::new(Q79::open(w)),
        80 => Box::new(Q80::open(w)),
        81 => Box::new(Q81::open(w)),
        82 => Box::new(Q82::open(w)),
        83 => Box::new(Q83::open(w)),
        84 => Box::new(Q84::open(w)),
        85 => Box::new(Q85::open(w)),
        86 => Box::new(Q86::open(w)),
        87 => Box::new(Q87::open(w)),
        88 => Box::new(Q88::open(w)),
        89 => Box::new(Q89::open(w)),
        90 => Box::new(Q90::open(w)),
        91 => Box::new(Q91::open(w)),
        92 => Box::new(Q92::open(w)),
        93 => Box::new(Q93::open(w)),
        94 => Box::new(Q94::open(w)),
        95 => Box::new(Q95::open(w)),
        96 => Box::new(Q96::open(w)),
        97 => Box::new(Q97::open(w)),
        98 => Box::new(Q98::open(w)),
        99 => Box::new(Q99::open(w)),
        100 => Box::new(Q100::open(w)),
        101 => Box::new(Q101::open(w)),
        102 => Box::new(Q102::open(w)),
        103 => Box::new(Q103::open(w)),
        104 => Box::new(Q104::open(w)),
        105 => Box::new(Q105::open(w)),
        106 => Box::new(Q106::open(w)),
        107 => Box::new(Q107::open(w)),
        108 => Box::new(Q108::open(w)),
        109 => Box::new(Q109::open(w)),
        110 => Box::new(Q110::open(w)),
        111 => Box::new(Q111::open(w)),
        112 => Box::new(Q112::open(w)),
        113 => Box::new(Q113::open(w)),
        114 => Box::new(Q114::open(w)),
        115 => Box::new(Q115::open(w)),
        116 => Box::new(Q116::open(w)),
        117 => Box::new(Q117::open(w)),
        118 => Box::new(Q118::open(w)),
        119 => Box::new(Q119::open(w)),
        120 => Box::new(Q120::open(w)),
        121 => Box::new(Q121::open(w)),
        122 => Box::new(Q122::open(w)),
        123 => Box::new(Q123::open(w)),
        124 => Box::new(Q124::open(w)),
        125 => Box::new(Q125::open(w)),
        126 => Box::new(Q126::open(w)),
        127 => Box::new(Q127::open(w)),
        128 => Box::new(Q128::open(w)),
        129 => Box::new(Q129::open(w)),
        130 => Box::new(Q130::open(w)),
        131 => Box::new(Q131::open(w)),
        132 => Box::new(Q132::open(w)),
        133 => Box::new(Q133::open(w)),
        134 => Box::new(Q134::open(w)),
        135 => Box::new(Q135::open(w)),
        136 => Box::new(Q136::open(w)),
        137 => Box::new(Q137::open(w)),
        138 => Box::new(Q138::open(w)),
        139 => Box::new(Q139::open(w)),
        140 => Box::new(Q140::open(w)),
        141 => Box::new(Q141::open(w)),
        142 => Box::new(Q142::open(w)),
        143 => Box::new(Q143::open(w)),
        144 => Box::new(Q144::open(w)),
        145 => Box::new(Q145::open(w)),
        146 => Box::new(Q146::open(w)),
        147 => Box::new(Q147::open(w)),
        148 => Box::new(Q148::open(w)),
        149 => Box::new(Q149::open(w)),
        150 => Box::new(Q150::open(w)),
        151 => Box::new(Q151::open(w)),
        152 => Box::new(Q152::open(w)),
        _ => panic!("harness: no query {i}"),
    }
}
/// (&mut T,) by kind
pub const STATIC_M: [usize; 12] = [2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24];
/// (EcsIds, &T) by kind
pub const STATIC_ER: [usize; 12] = [25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36];
