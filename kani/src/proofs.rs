proofs! {
    num_0 Num 0 3;
    num_1 Num 1 4;
    num_2 Num 2 5;
    num_3 Num 3 6;
    num_4 Num 4 7;
    num_5 Num 5 8;
    num_6 Num 6 9;
    num_7 Num 7 10;
    num_8 Num 8 11;
    num_9 Num 9 12;
    num_10 Num 10 13;
    num_11 Num 11 14;
    num_12 Num 12 15;
    num_13 Num 13 16;
    word_0 Word 0 3;
    word_1 Word 1 4;
    word_2 Word 2 5;
    word_3 Word 3 6;
    word_4 Word 4 7;
    word_5 Word 5 8;
    word_6 Word 6 9;
    word_7 Word 7 10;
    word_8 Word 8 11;
    word_9 Word 9 12;
    word_10 Word 10 13;
    word_11 Word 11 14;
    word_12 Word 12 15;
    word_13 Word 13 16;
}
