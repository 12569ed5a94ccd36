------------------------------- MODULE Messages -------------------------------
(* What the command says about each result (S06, S08, S24).                   *)
EXTENDS Results, Text
Named(f, std) == IF f = "" THEN std ELSE f
Message(rc, inname, outname) ==
    CASE rc = ELIMIT   -> "Error determining amount of available memory"
      [] rc = ECLOCK   -> "Error reading clocks"
      [] rc = EKEY     -> "Error computing derived key"
      [] rc = ESALT    -> "Error reading salt"
      [] rc = EOPENSSL -> "OpenSSL error"
      [] rc = ENOMEM   -> "Error allocating memory"
      [] rc = EINVAL   -> "Input is not valid scrypt-encrypted block"
      [] rc = EVERSION -> "Unrecognized scrypt format version"
      [] rc = ETOOBIG  -> "Decrypting file would require too much memory"
      [] rc = ETOOSLOW -> "Decrypting file would take too much CPU time"
      [] rc = EBIGSLOW -> "Decrypting file would require too much memory and CPU time"
      [] rc = EPASS    -> "Passphrase is incorrect"
      [] rc = EWRFILE  -> "Error writing file: " \o Named(outname, "standard output")
      [] rc = ERDFILE  -> "Error reading file: " \o Named(inname, "standard input")
      [] rc = EPARAM   -> "Error in explicit parameters"
\* A line of err that starts with the program's name and the message; with
\* the reason of a system error possibly following.
Says(err, m) == HasText("\n" \o err, "\nscrypt: " \o m \o "\n") \/ HasText("\n" \o err, "\nscrypt: " \o m \o ": ")
\* ... and nothing that means another result.
SaysOnly(err, rc, inname, outname) ==
    Says(err, Message(rc, inname, outname)) /\ \A e \in Errors \ {rc} : ~Says(err, Message(e, inname, outname))
===============================================================================
