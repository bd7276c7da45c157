/* Stands for the compiler's own header where the text of a translation unit is only compared with others (P16). */
int verif_x86intrin_is_included;
