import subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout
def h(sub):
    for l in log.splitlines():
        if sub in l: return l.split()[0]
    raise SystemExit(sub)
fx=[('C08','string comparison mistaken','"c" == "a" was true: a text difference of 2 was taken for "incomparable"'),
('C08','comparison between nil','nil == 3 (and every other comparison of nil with a value) was true'),
('C08','modulo of a negative','-5.5 % 3 and 5 % -2.5 with mixed operand types gave the wrong remainder'),
('C11','crash reading a table with an invalid key','t[nil] crashed formatting the error message'),
('C08','integer division by zero','1 / 0, 1 % 0 and -2147483648 / -1 killed the process'),
('C10','C closure executed an extra instruction','buzzvm_closure_call of a C closure executed one instruction of the script'),
('C10','calling a function by name','buzzvm_function_call with arguments crashed'),
('C10','registering a C function twice','registering the same C function twice added a second entry'),
('C09','negative argument count','callc/calls with a negative argument count read outside the stack'),
('C09','crash on return and on local','ret0, ret1, lload, lstore and lremove outside a function crashed'),
('C09','missing local symbols','lremove of too many locals and lstore past the end corrupted the symbols'),
('C09','malformed bytecode','loading or executing malformed bytecode read past its end'),
]
known=open('/verif/tools/known.txt').read()
extra=open('/verif/tools/fixed_extra.txt').read() if __import__('os').path.exists('/verif/tools/fixed_extra.txt') else ''
with open('/verif/known_findings.txt','w') as f:
    f.write('# known: findings recorded and not repaired; fixed: findings repaired by a fix: commit in /repo\n')
    f.write(known)
    for p,s,t in fx: f.write('fixed: property=%s %s %s\n'%(p,h(s),t))
    for l in extra.splitlines():
        p,s,t=l.split('|'); f.write('fixed: property=%s %s %s\n'%(p,h(s),t))
