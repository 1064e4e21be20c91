import subprocess
MAP="""W08 W03 W01 W02 W07 W05 W07 W04 W03 W04 W05 W05 V01 V01 V01 V01 V01 V01 V01 V01 V01 V01 G04 L02 L02 V03 G07 G07 G05 G05 G05 V04 V04 V03 V05 V05 V02 V03 V03 V03 L04 G02 L01 W07 W06 L01 L04 L04 G02 L02 L04 W05 W05 G08 G08 G08 G08 G08 G08 G05 L06 L06""".split()
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
log=[l for l in log if ' fix: ' in l]
assert len(log)==len(MAP),(len(log),len(MAP))
print("# Findings. 'fixed:' lines are defects of the original tree that were repaired in /repo; they suppress nothing.")
print("# 'known:' lines (known: property=<id> clause=<clause> scenario=<text in the scenario> <what fails>) would be")
print("# defects left unrepaired; there are none.")
for p,l in zip(MAP,log):
    h,s=l.split(' ',1); print(f"fixed: property={p} {h} {s[5:]}")
