// Written once by a script: all widths of sequences and choices.
pest3_core::sequence_type!(Sequence17, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9), (field_10, T10, TR10), (field_11, T11, TR11), (field_12, T12, TR12), (field_13, T13, TR13), (field_14, T14, TR14), (field_15, T15, TR15), (field_16, T16, TR16));
pest3_core::choice_type!(Choice17, (Choice0, T0, choice_0), (Choice1, T1, choice_1), (Choice2, T2, choice_2), (Choice3, T3, choice_3), (Choice4, T4, choice_4), (Choice5, T5, choice_5), (Choice6, T6, choice_6), (Choice7, T7, choice_7), (Choice8, T8, choice_8), (Choice9, T9, choice_9), (Choice10, T10, choice_10), (Choice11, T11, choice_11), (Choice12, T12, choice_12), (Choice13, T13, choice_13), (Choice14, T14, choice_14), (Choice15, T15, choice_15), (Choice16, T16, choice_16));
pest3_core::sequence_type!(Sequence20, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9), (field_10, T10, TR10), (field_11, T11, TR11), (field_12, T12, TR12), (field_13, T13, TR13), (field_14, T14, TR14), (field_15, T15, TR15), (field_16, T16, TR16), (field_17, T17, TR17), (field_18, T18, TR18), (field_19, T19, TR19));
pest3_core::choice_type!(Choice20, (Choice0, T0, choice_0), (Choice1, T1, choice_1), (Choice2, T2, choice_2), (Choice3, T3, choice_3), (Choice4, T4, choice_4), (Choice5, T5, choice_5), (Choice6, T6, choice_6), (Choice7, T7, choice_7), (Choice8, T8, choice_8), (Choice9, T9, choice_9), (Choice10, T10, choice_10), (Choice11, T11, choice_11), (Choice12, T12, choice_12), (Choice13, T13, choice_13), (Choice14, T14, choice_14), (Choice15, T15, choice_15), (Choice16, T16, choice_16), (Choice17, T17, choice_17), (Choice18, T18, choice_18), (Choice19, T19, choice_19));
seqs!(Sequence2 2 [0 field_0 T0 TR0, 1 field_1 T1 TR1], Sequence3 3 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2], Sequence4 4 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3], Sequence5 5 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4], Sequence6 6 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5], Sequence7 7 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6], Sequence8 8 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7], Sequence9 9 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8], Sequence10 10 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9], Sequence11 11 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9, 10 field_10 T10 TR10], Sequence12 12 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9, 10 field_10 T10 TR10, 11 field_11 T11 TR11], Sequence13 13 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9, 10 field_10 T10 TR10, 11 field_11 T11 TR11, 12 field_12 T12 TR12], Sequence14 14 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9, 10 field_10 T10 TR10, 11 field_11 T11 TR11, 12 field_12 T12 TR12, 13 field_13 T13 TR13], Sequence15 15 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9, 10 field_10 T10 TR10, 11 field_11 T11 TR11, 12 field_12 T12 TR12, 13 field_13 T13 TR13, 14 field_14 T14 TR14], Sequence16 16 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9, 10 field_10 T10 TR10, 11 field_11 T11 TR11, 12 field_12 T12 TR12, 13 field_13 T13 TR13, 14 field_14 T14 TR14, 15 field_15 T15 TR15], Sequence17 17 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9, 10 field_10 T10 TR10, 11 field_11 T11 TR11, 12 field_12 T12 TR12, 13 field_13 T13 TR13, 14 field_14 T14 TR14, 15 field_15 T15 TR15, 16 field_16 T16 TR16], Sequence20 20 [0 field_0 T0 TR0, 1 field_1 T1 TR1, 2 field_2 T2 TR2, 3 field_3 T3 TR3, 4 field_4 T4 TR4, 5 field_5 T5 TR5, 6 field_6 T6 TR6, 7 field_7 T7 TR7, 8 field_8 T8 TR8, 9 field_9 T9 TR9, 10 field_10 T10 TR10, 11 field_11 T11 TR11, 12 field_12 T12 TR12, 13 field_13 T13 TR13, 14 field_14 T14 TR14, 15 field_15 T15 TR15, 16 field_16 T16 TR16, 17 field_17 T17 TR17, 18 field_18 T18 TR18, 19 field_19 T19 TR19]);
chos!(Choice2 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1], Choice3 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2], Choice4 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3], Choice5 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4], Choice6 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5], Choice7 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6], Choice8 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7], Choice9 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8], Choice10 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9], Choice11 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10], Choice12 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11], Choice13 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12], Choice14 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12, 13 Choice13 T13 choice_13], Choice15 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12, 13 Choice13 T13 choice_13, 14 Choice14 T14 choice_14], Choice16 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12, 13 Choice13 T13 choice_13, 14 Choice14 T14 choice_14, 15 Choice15 T15 choice_15], Choice17 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12, 13 Choice13 T13 choice_13, 14 Choice14 T14 choice_14, 15 Choice15 T15 choice_15, 16 Choice16 T16 choice_16], Choice20 [0 Choice0 T0 choice_0, 1 Choice1 T1 choice_1, 2 Choice2 T2 choice_2, 3 Choice3 T3 choice_3, 4 Choice4 T4 choice_4, 5 Choice5 T5 choice_5, 6 Choice6 T6 choice_6, 7 Choice7 T7 choice_7, 8 Choice8 T8 choice_8, 9 Choice9 T9 choice_9, 10 Choice10 T10 choice_10, 11 Choice11 T11 choice_11, 12 Choice12 T12 choice_12, 13 Choice13 T13 choice_13, 14 Choice14 T14 choice_14, 15 Choice15 T15 choice_15, 16 Choice16 T16 choice_16, 17 Choice17 T17 choice_17, 18 Choice18 T18 choice_18, 19 Choice19 T19 choice_19]);
fn seq<'i>(n: usize, c: bool, i: Position<'i>, s: &mut Stack<Span<'i>>, t: &mut Tracker<'i, Rl>) -> Res<'i> {
    match n {
        2 => run::<Sequence2<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>>>(c, i, s, t),
        3 => run::<Sequence3<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>>>(c, i, s, t),
        4 => run::<Sequence4<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>>>(c, i, s, t),
        5 => run::<Sequence5<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>>>(c, i, s, t),
        6 => run::<Sequence6<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>>>(c, i, s, t),
        7 => run::<Sequence7<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>>>(c, i, s, t),
        8 => run::<Sequence8<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>>>(c, i, s, t),
        9 => run::<Sequence9<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>>>(c, i, s, t),
        10 => run::<Sequence10<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>>>(c, i, s, t),
        11 => run::<Sequence11<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>, Ch<'_, 10>, Tw<10>>>(c, i, s, t),
        12 => run::<Sequence12<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>, Ch<'_, 10>, Tw<10>, Ch<'_, 11>, Tw<11>>>(c, i, s, t),
        13 => run::<Sequence13<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>, Ch<'_, 10>, Tw<10>, Ch<'_, 11>, Tw<11>, Ch<'_, 12>, Tw<12>>>(c, i, s, t),
        14 => run::<Sequence14<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>, Ch<'_, 10>, Tw<10>, Ch<'_, 11>, Tw<11>, Ch<'_, 12>, Tw<12>, Ch<'_, 13>, Tw<13>>>(c, i, s, t),
        15 => run::<Sequence15<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>, Ch<'_, 10>, Tw<10>, Ch<'_, 11>, Tw<11>, Ch<'_, 12>, Tw<12>, Ch<'_, 13>, Tw<13>, Ch<'_, 14>, Tw<14>>>(c, i, s, t),
        16 => run::<Sequence16<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>, Ch<'_, 10>, Tw<10>, Ch<'_, 11>, Tw<11>, Ch<'_, 12>, Tw<12>, Ch<'_, 13>, Tw<13>, Ch<'_, 14>, Tw<14>, Ch<'_, 15>, Tw<15>>>(c, i, s, t),
        17 => run::<Sequence17<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>, Ch<'_, 10>, Tw<10>, Ch<'_, 11>, Tw<11>, Ch<'_, 12>, Tw<12>, Ch<'_, 13>, Tw<13>, Ch<'_, 14>, Tw<14>, Ch<'_, 15>, Tw<15>, Ch<'_, 16>, Tw<16>>>(c, i, s, t),
        20 => run::<Sequence20<Ch<'_, 0>, Tw<0>, Ch<'_, 1>, Tw<1>, Ch<'_, 2>, Tw<2>, Ch<'_, 3>, Tw<3>, Ch<'_, 4>, Tw<4>, Ch<'_, 5>, Tw<5>, Ch<'_, 6>, Tw<6>, Ch<'_, 7>, Tw<7>, Ch<'_, 8>, Tw<8>, Ch<'_, 9>, Tw<9>, Ch<'_, 10>, Tw<10>, Ch<'_, 11>, Tw<11>, Ch<'_, 12>, Tw<12>, Ch<'_, 13>, Tw<13>, Ch<'_, 14>, Tw<14>, Ch<'_, 15>, Tw<15>, Ch<'_, 16>, Tw<16>, Ch<'_, 17>, Tw<17>, Ch<'_, 18>, Tw<18>, Ch<'_, 19>, Tw<19>>>(c, i, s, t),
        n => panic!("sequence of {n}"),
    }
}
fn cho<'i>(n: usize, c: bool, i: Position<'i>, s: &mut Stack<Span<'i>>, t: &mut Tracker<'i, Rl>) -> Res<'i> {
    match n {
        2 => run::<Choice2<Ch<'_, 0>, Ch<'_, 1>>>(c, i, s, t),
        3 => run::<Choice3<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>>>(c, i, s, t),
        4 => run::<Choice4<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>>>(c, i, s, t),
        5 => run::<Choice5<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>>>(c, i, s, t),
        6 => run::<Choice6<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>>>(c, i, s, t),
        7 => run::<Choice7<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>>>(c, i, s, t),
        8 => run::<Choice8<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>>>(c, i, s, t),
        9 => run::<Choice9<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>>>(c, i, s, t),
        10 => run::<Choice10<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>>>(c, i, s, t),
        11 => run::<Choice11<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>, Ch<'_, 10>>>(c, i, s, t),
        12 => run::<Choice12<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>, Ch<'_, 10>, Ch<'_, 11>>>(c, i, s, t),
        13 => run::<Choice13<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>, Ch<'_, 10>, Ch<'_, 11>, Ch<'_, 12>>>(c, i, s, t),
        14 => run::<Choice14<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>, Ch<'_, 10>, Ch<'_, 11>, Ch<'_, 12>, Ch<'_, 13>>>(c, i, s, t),
        15 => run::<Choice15<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>, Ch<'_, 10>, Ch<'_, 11>, Ch<'_, 12>, Ch<'_, 13>, Ch<'_, 14>>>(c, i, s, t),
        16 => run::<Choice16<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>, Ch<'_, 10>, Ch<'_, 11>, Ch<'_, 12>, Ch<'_, 13>, Ch<'_, 14>, Ch<'_, 15>>>(c, i, s, t),
        17 => run::<Choice17<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>, Ch<'_, 10>, Ch<'_, 11>, Ch<'_, 12>, Ch<'_, 13>, Ch<'_, 14>, Ch<'_, 15>, Ch<'_, 16>>>(c, i, s, t),
        20 => run::<Choice20<Ch<'_, 0>, Ch<'_, 1>, Ch<'_, 2>, Ch<'_, 3>, Ch<'_, 4>, Ch<'_, 5>, Ch<'_, 6>, Ch<'_, 7>, Ch<'_, 8>, Ch<'_, 9>, Ch<'_, 10>, Ch<'_, 11>, Ch<'_, 12>, Ch<'_, 13>, Ch<'_, 14>, Ch<'_, 15>, Ch<'_, 16>, Ch<'_, 17>, Ch<'_, 18>, Ch<'_, 19>>>(c, i, s, t),
        n => panic!("choice of {n}"),
    }
}
