"""Property id -> check function."""
import basis
import complete
import eigen
import embed
import ham
import history
import pictures
import spin
import states
import workflow

CHECKS = {"C01": basis.c01, "C02": basis.c02, "C03": basis.c03, "C04": basis.c04, "C05": basis.c05,
          "C06": ham.c06, "C07": ham.c07, "C08": ham.c08, "C09": ham.c09, "C10": ham.c10, "C11": spin.c11, "C12": spin.c12, "C13": ham.c13, "C14": spin.c14, "C15": spin.c15, "C16": ham.c16,
          "C17": eigen.c17, "C18": eigen.c18,
          "C19": states.c19, "C20": states.c20, "C21": states.c21, "C22": states.c22,
          "C23": workflow.c23, "C24": workflow.c24, "C25": workflow.c25,
          "C26": embed.c26, "C27": embed.c27, "C28": complete.c28, "C29": ham.c29, "C30": pictures.c30, "C31": history.c31, "C32": embed.c32, "C33": eigen.c33,
          "C34": pictures.c34, "C35": eigen.c35}
