#!/usr/bin/env python3
"""Rewrites known-findings.txt from the fix: commits of /repo."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {
'bound OID decoding': ('C25', 'more than ten arcs were written beyond the result; NULL result was dereferenced'),
'consume end-of-content': ('C02', 'end-of-contents octets were not consumed, so that iteration took them for the next field'),
'advance beyond ATR interface byte TD4': ('C11', 'an ATR with TD4 took TD4 for a historical byte, and interface bytes beyond TD4 were ignored'),
'reject ATR without enough': ('C11', 'T1=00 with fewer than three more historical bytes read the status indicator outside of the historical bytes'),
'accept ATR historical bytes': ('C11', 'an ATR with an empty COMPACT-TLV part was rejected'),
'avoid overflow when computing BWT': ('C11', 'block waiting time overflowed for large BWI, F and small D'),
'avoid endless READ RECORD loop when AFL': ('C18', 'AFL entry with last record 255 never terminated'),
'reject empty application data record': ('C18', 'empty record data led to use of an uninitialised field'),
'avoid endless READ RECORD loop after PSE': ('C19', 'PSE directory with 255 records never terminated'),
'use decoded tag when reporting': ('C19', 'a debug trace used an uninitialised tag for an unexpected PSE record'),
'only provide AIP and AFL': ('C18', 'AIP of a failed GET PROCESSING OPTIONS remained visible although its list was released'),
'reject empty FCI': ('C17', 'empty FCI led to use of an uninitialised field'),
'report success for JCB': ('C20', 'JCB AID was reported as unknown although its information was provided'),
'compare T=0 procedure byte': ('C07', 'in TPDU mode the procedure byte was compared with an octet of the data instead of the INS of the current TPDU header'),
'send only remaining T=0': ('C07', 'after single-octet acknowledgement the complete data was sent again beyond its end; stale data pointer for GET RESPONSE'),
'retain C-TPDU header': ('C07', 'after 6CXX the resent header lost CLA, INS, P1, P2'),
'ensure that R-APDU buffer': ('C07', 'a response buffer of less than two octets was overrun by SW1-SW2'),
'reserve space for null': ('C23', 'the terminating NUL was written beyond the output buffer'),
'null terminate output of iconv': ('C23', 'the output of the iconv implementation was not terminated'),
'avoid NULL dereference in debug': ('C18', 'NULL context dereferenced by a debug trace'),
'reject repeated application': ('C18', 'repeated application processing used the released FCI of the selected application'),
'consider application not supported': ('C15', 'missing list of supported AIDs dereferenced'),
'reject EMV format "n" value': ('C13', 'values beyond 32 bit silently wrapped'),
'retain order of applications': ('C16', 'applications without priority indicator were sorted into the reverse of the order in which the card listed them'),
'use only first TAi': ('C11', 'with T=1 or T=15 in more than one TDi, the parameters were taken from the last instead of the first TA, TB and TC'),
'decode first OID': ('C25', 'a first subidentifier of several octets (such as 2.999) was decoded as two subidentifiers with a wrong second arc'),
'resend complete C-APDU': ('C07', 'in APDU mode, status 6CXX for a case 4 command was answered with the header alone, without the command data'),
'avoid buffer overflow when converting date': ('C27', 'converting a date or time with non-decimal digits overran a stack buffer'),
'avoid buffer overflow when converting number': ('C27', 'a numeric (n or cn) value longer than the string overran the string'),
'avoid buffer overflow when converting track 2': ('C27', 'track 2 data longer than the string overran the string'),
'null terminate empty string lists': ('C27', 'a string list without any entry left the string unterminated'),
'validate C-APDU length before': ('C27', 'the length of a C-APDU was compared with the length of the string, so that short C-APDUs were read beyond their end'),
'validate length of Mastercard Third Party': ('C27', 'a third party data (9F6E) field that is too short was read beyond its end'),
'avoid reading value of empty EMV field': ('C27', 'the first value octet of an empty field was read'),
'only stringify DF name as text': ('C27', 'inverted comparison: every DF name except PSE and PPSE was shown as text, and a NULL value (data object list) was dereferenced'),
'stop at a truncated reader property': ('C29', 'a reader property whose length exceeds the property data made the remaining length wrap around, so that memory behind the data was searched'),
'do not disconnect an uninitialised card handle': ('C29', 'a reader that cannot be connected was disconnected with an uninitialised handle'),
'disconnect the card when connecting fails': ('C29', 'a failing UID request left the card connected although connecting had failed'),
'report exhausted memory when the PC/SC context': ('C29', 'failed allocations were dereferenced by pcsc_init'),
'subtract the length of the current reader property': ('C29', 'the length of the next reader property was subtracted instead of that of the current one, so that properties were not found, or searched for behind the data'),
'use correct octets to determine': ('C08', 'extended Lc was taken from the wrong octets, so that extended commands of case 3 and 4 were misclassified'),
}
exec(open(os.path.join(HERE, "tools", "findings_extra.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "findings_extra.py")) else None
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "98c9f43..HEAD"]).decode()
with open(os.path.join(HERE, "known-findings.txt"), "w") as f:
    f.write("# Genuine defects of openemv/emv-utils at the pinned commit, found by these checks and the reading they needed.\n"
            "# fixed: repaired by the named /repo commit; suppresses nothing, the check reports the violation if it returns.\n"
            "# finding: not repaired; printed as KNOWN-FINDING (none at present).\n")
    for l in log.splitlines():
        h, s = l.split(" ", 1)
        k = [v for k, v in M.items() if s[5:].startswith(k)]
        assert s.startswith("fix: ") and len(k) == 1, l
        f.write("fixed: property=%s %s %s\n" % (k[0][0], h, k[0][1]))
