"""What a property rests on: guarantees of other parts without which it fails, decided again in its own check.

A mutex strands a waiter also when the waiter queue it uses loses it; a future's waiters are resumed only if the
condition variable inside resumes them.  RELY names, per property, the packs whose rules are such guarantees, and
which of their rules."""
RELY = {
    'P01': [('P26', r'[ILTU]\d')],
    'P02': [('P01', r'E9 ')],
    'P03': [('P04', r'W(?!1 |4 |12 |14 |18 |19 )'), ('P05', r'K')],
    'P04': [('P05', r'K'), ('P07', r'C(9|10) ')],
    'P05': [('P20', r'D(1|3|6|13|14|15) '), ('P04', r'W(3|5|10|13|22|23) ')],
    'P06': [('P20', r'D(4|5) '), ('P04', r'W(2|9|11|19) '), ('P03', r'H2 ')],
    'P07': [('P04', r'W(?!1 |4 )'), ('P05', r'K')],
    'P08': [('P07', r'C(1|2|3|5|6|7|9|10|12|14) '), ('P04', r'W(?!1 |4 |12 |13 |18 )'), ('P01', r'[ER]\d')],
    'P10': [('P04', r'W(?!1 |4 )'), ('P05', r'K')],
    'P11': [('P04', r'W(?!1 |4 )'), ('P05', r'K')],
    'P13': [('P07', r'C(?!1[35] )'), ('P04', r'W(?!1 |4 )'), ('P05', r'K')],
    'P14': [('P13', r'S(1|2|3|4|7|8) ')],
    'P15': [('P13', r'S(1|5|9) '), ('P07', r'C(8|12|13) ')],
    'P16': [('P13', r'S(1|2|3|4|7|8) '), ('P32', r'L')],
    'P18': [('P04', r'W(?!1 |4 |12 |13 |18 )'), ('P05', r'K'), ('P20', r'D(3|6|8) ')],
    'P19': [('P20', r'D8 ')],
    'P20': [('P05', r'K(6|7|8|9|11) '), ('P22', r'[DN]\d'), ('P24', r'A(1|3|4|5|7) ')],
    'P21': [('P20', r'D6 '), ('P04', r'W(12|13|15|18) '), ('P05', r'K'), ('P22', r'N5 ')],
    'P22': [('P20', r'D(3|6|10) |E4 ')],
    'P23': [('P20', r'D(8|11|12|13) ')],
    'P24': [('P25', r'Q')],
    'P28': [('P20', r'D(1|12) ')],
    'P32': [('P16', r'K(5|6) '), ('P19', r'A(6|7) '), ('P20', r'D(4|14|15) ')],
}
