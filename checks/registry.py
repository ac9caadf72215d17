import accept
import grammar
import order
import panics
import parse
import table
import sets
import values

CHECKS = {
    "C01": grammar.c01,
    "C02": grammar.c02,
    "C03": grammar.c03,
    "C04": sets.c04,
    "C05": sets.c05, "C06": sets.c06,
    "C07": table.c07,
    "C08": parse.check("C08"),
    "C09": parse.check("C09"),
    "C10": panics.c10,
    "C11": parse.check("C11"),
    "C12": parse.check("C12"),
    "C13": parse.check("C13"),
    "C14": parse.check("C14"),
    "C15": order.c15,
    "C16": values.c16,
    "C17": values.c17,
    "C18": values.c18,
    "C19": accept.c19,
    "C20": accept.c20,
}
