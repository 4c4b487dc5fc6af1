"""Reference price formula (specification).  This file is *analysed*, never executed: the checker interprets it
symbolically next to the repository's formula and requires equal results.  The tables K.* are computed from
their mathematical definitions by sa/rules/formula.py."""


def calculate_purchase_return(supply, connector_balance, connector_weight, deposit_amount):
    if not (supply > 0 and connector_balance > 0 and 0 < connector_weight <= 1000000):
        raise ValueError
    if deposit_amount == 0:
        return 0
    if connector_weight == 1000000:
        return supply * deposit_amount // connector_balance
    r, p = power(deposit_amount + connector_balance, connector_balance, connector_weight, 1000000)
    return (supply * r >> p) - supply


def calculate_sale_return(supply, connector_balance, connector_weight, sell_amount):
    if not (supply > 0 and connector_balance > 0 and 0 < connector_weight <= 1000000 and sell_amount <= supply):
        raise ValueError
    if sell_amount == 0:
        return 0
    if sell_amount == supply:
        return connector_balance
    if connector_weight == 1000000:
        return connector_balance * sell_amount // supply
    r, p = power(supply, supply - sell_amount, 1000000, connector_weight)
    return (connector_balance * r - (connector_balance << p)) // r


def calculate_cross_connector_return(from_connector_balance, from_connector_weight,
                                     to_connector_balance, to_connector_weight, amount):
    if not (from_connector_balance > 0 and 0 < from_connector_weight <= 1000000 and
            to_connector_balance > 0 and 0 < to_connector_weight <= 1000000):
        raise ValueError
    if from_connector_weight == to_connector_weight:
        return to_connector_balance * amount // (from_connector_balance + amount)
    r, p = power(from_connector_balance + amount, from_connector_balance, from_connector_weight, to_connector_weight)
    return (to_connector_balance * r - (to_connector_balance << p)) // r


def power(base_n, base_d, exp_n, exp_d):
    if base_n >= K_MAX_NUM:
        raise ValueError
    base = base_n * K_FIXED_1 // base_d
    if base < K_OPT_LOG_MAX:
        log = optimal_log(base)
    else:
        log = general_log(base)
    e = log * exp_n // exp_d
    if e < K_OPT_EXP_MAX:
        return optimal_exp(e), 127
    p = position(e)
    return general_exp(e >> (127 - p), p), p


def floor_log2(n):
    res = 0
    if n < 256:
        while n > 1:
            n >>= 1
            res += 1
    else:
        for s in (128, 64, 32, 16, 8, 4, 2, 1):
            if n >= 1 << s:
                n >>= s
                res += s
    return res


def general_log(x):
    res = 0
    if x >= 2 * K_FIXED_1:
        count = floor_log2(x // K_FIXED_1)
        x >>= count
        res = count * K_FIXED_1
    if x > K_FIXED_1:
        for i in range(126, -1, -1):
            x = x * x // K_FIXED_1
            if x >= 2 * K_FIXED_1:
                x >>= 1
                res += 1 << i
    return res * K_LN2_NUM // K_LN2_DEN


def position(x):
    for p in K_POSITIONS:
        if x <= K_MAX_EXP[p]:
            return p
    return 0


def general_exp(x, precision):
    xi = x
    res = 0
    for c in K_GENERAL_EXP:
        xi = xi * x >> precision
        res += xi * c
    return res // K_GENERAL_EXP_DEN + x + (1 << precision)


def optimal_log(x):
    res = 0
    for val, exp in K_LOG_HI:
        if x >= exp:
            res += val
            x = x * K_FIXED_1 // exp
    y = x - K_FIXED_1
    z = y
    w = y * y // K_FIXED_1
    first = True
    for num, den in K_LOG_LO:
        if not first:
            z = z * w // K_FIXED_1
        first = False
        res += z * (num - y) // den
    return res


def optimal_exp(x):
    res = 0
    y = x % K_EXP_MOD
    z = y
    for c in K_EXP_LO:
        z = z * y // K_FIXED_1
        res += z * c
    res = res // K_EXP_LO_DEN + y + K_FIXED_1
    for bit, num, den in K_EXP_HI:
        if x & bit != 0:
            res = res * num // den
    return res
