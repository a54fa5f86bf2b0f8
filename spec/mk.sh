#!/bin/bash
# (re)creates the three-line wrapper modules and the trace configurations:
#   mk.sh Module PREFIX [gendepth]
m=$1; p=$2; d=$3
printf -- "---- MODULE ${m}Trace ----\nEXTENDS $m, MachineTrace\n====\n" > ${m}Trace.tla
printf "CONSTANTS MInit <- ${p}Init  MStep <- ${p}Step  MMatch <- ${p}Match  MInv <- ${p}Inv\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" > ${m}Trace.cfg
if [ -n "$d" ]; then
printf -- "---- MODULE ${m}Gen ----\nEXTENDS $m, MachineGen\n====\n" > ${m}Gen.tla
printf "CONSTANTS MInit <- ${p}Init  MStep <- ${p}Step  MInv <- ${p}Inv  MStarts <- ${p}Starts  MEvents <- ${p}Events\nMDepth = $d\nINIT Init\nNEXT Next\nINVARIANT Inv Emit\nCHECK_DEADLOCK FALSE\n" > ${m}Gen.cfg
fi
