import json,subprocess
M={'accept tabs around the arguments of a parameter':'C18',
'a physical quantity made from another quantity keeps its unit':'C13','a measured sequence made from another quantity is one-dim':'C13',
'the default of a parameter computed from others':'C18',
'observe at a radius stored at every time':'C17',
'find a value in a labelled array':'C06',
'respect the hint when viewing':'C21',
'find a configuration file named by a path':'C21',
'give equal groups of aliases equal hashes':'C11',
'create a context from only':'C05',
'a quantity is a member of another':'C04',
'compare and print wrapped':'C12',
'compare a variable term to a number':'C02',
'look for an unknown quantity':'C14',
'give a loaded log entry only':'C19',
'interpolate axis-like observables with their axes':'C17',
'refuse fractional measured values as indices':'C08',
'compute the symmetric difference of dimension names':'C10',
'round charges to the nearest':'C15','create the script that operates on a project':'C19',
'run with the names and input files':'C19',
'a project may have a single named branch':'C19',
'report only directories as runs':'C19',
'select branches by their full names':'C19',
'never create, rename, or remove anything but':'C19',
'update only the leading part of log':'C19',
'a re-opened project equals the original':'C19',
'physical arrays compose':'C05','numpy functions see':'C20','subscripting with mixed':'C07','parse rational':'C03','equal symbolic':'C02','a zero exponent':'C02','accept the unit symbols':'C14','a unit may be created from a full':'C14','refuse a numerical coeff':'C03','broadcast singular':'C06','a list of indices may':'C07','axis indices follow':'C09','nearest-value':'C12','renaming a project moves':'C19','renaming a run that never':'C19','a copied project':'C19','a renamed project':'C19','conversion by dimensions':'C01','dimensionless units keep':'C01','a unit that mixes':'C02','powers of expressions':'C02','read numbers in sci':'C03','reduce an array over any axes that numpy':'C20','squeeze only the given axes':'C20','compute the extreme values of physical':'C20','integrate an array along any axis':'C20','reduce physical objects over any axes':'C20','divide gradients by the unit of any measured':'C20','a gradient has the type of the differentiated':'C20','multiply integrals by the unit of the spacing':'C20','raise the unit of a physical object to the given power in numpy':'C20','keep units in arithmetic with numpy operands':'C20','do not replace methods of numpy functions by calls':'C20','check the contents of a nested':'C03','array powers line':'C06','keep the full axis':'C06','default and transposed':'C06','raise an index to each':'C08','bound a repeated target':'C08','bound targets along':'C08','tolerate rounding of a':'C09','an axis may be subscripted':'C09','symbols chosen by a list':'C09','refuse repeated dimensions':'C10','inserting an axis never':'C10','an alias shared by several':'C11','copying an aliased mapping':'C11','freezing groups of items':'C11','the name of a group of items':'C11','merging groups of aliases':'C11','a table search returns':'C12','merge sequences in which':'C12','find the nearest of unsigned':'C12','registering an object under':'C12','measuring nested values':'C13','distribute the unit over':'C13','refuse different units when':'C13','measuring an iterator':'C13','refuse further arguments when':'C13','give permittivity':'C14','spell illuminance':'C14','use cm in the cgs':'C14','scale electrical cgs':'C15','divide by 4 pi':'C14','give the cgs value of the first rad':'C15','convert a single dimensionless':'C14','find defined conversions of compound':'C14','define conversions of lumen':'C14','do not let centiday':'C14','compute metrics of quantities':'C14','spell siemens':'C14','match dimensionless units last':'C14','energies and speeds of datasets':'C21','observer names keep letters':'C21','refuse an observer number':'C21','raise observable quantities to powers':'C16','provide every observable quantity':'C16','select energy bins of the acc':'C16','give the flow angle the axes':'C17','observe the acceleration rate at a single':'C17','interpolate to a radius that is stored':'C17','interpolate over radius before':'C17','interpolate rigidity and mean free':'C17','refuse coordinates outside the range':'C17','allow interpolation to the first':'C17','refuse shells outside':'C17','observe at a radius given in any':'C17','refuse shells with a unit':'C17','interpolate to the first or last':'C17',
'parse indented comments':'C18',
'convert single numbers and blank':'C18',
'report only differing parameters':'C18',
'evaluate default parameter values equal':'C18',
'compute default parameter values':'C18',
'compare config files that have no':'C18',
'compare every digit':'C18',
'compare config files to default':'C18',
'omit parameters without a default':'C18',
'refuse to represent a multi-valued':'C18'}
try:
    extra=json.load(open('/tmp/kfextra.json'))
except Exception: extra={}
M.update(extra)
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]
    p=[v for k,v in M.items() if s.startswith(k)]
    assert p,s
    out.append(json.dumps(dict(status='fixed',property=p[0],commit=h,line=f'fixed: property={p[0]} {h} {s}')))
f='/verif/known-findings.jsonl'
OPEN=[
 ('C20','C20-transpose-axes','arranging',r'numbers arranged along explicit axes','numpy.transpose of a labelled or physical array with explicit axes other than the full reversal permutes the dimensions but arranges the numbers in reverse: pinned by test_transpose in tests/test_real/test_array.py and tests/test_physical/test_array.py'),
 ('C14','C14-ohm-dimension','quantities',r'mks (impedance|resistance|resistivity): the (prescribed dimension is that of the prescribed unit|unit measures the quantity|dimension of the metric)','the SI dimension of impedance (and of resistance and resistivity) lacks one power of current: tests/test_metric/test_named_unit.py pins M L^2 T^-3 I^-1'),
 ('C14','C14-ohm-unit','named-units',r'mks .{0,2}Ω: dimension','the SI dimension of ohm lacks one power of current: pinned by tests/test_metric/test_named_unit.py'),
 ('C14','C14-em-conversions','prescribed',r'(mks -> cgs (conductivity|permeability|resistivity)|cgs -> mks magnetic moment): the conversion is defined','the conversion between the units of the two systems is refused for conductivity, permeability, resistivity (mks to cgs) and magnetic moment (cgs to mks)'),
]
old=[json.dumps(dict(id=i,property=p,contract=c,match=m,what=w,status='open'),ensure_ascii=False) for p,i,c,m,w in OPEN]
open(f,'w').write('\n'.join(out+old)+'\n')
