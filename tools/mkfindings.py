import json
F=[('C05','f2021c1','derivatives of linear splines on regular grids were not divided by the grid step'),
('C02','3c88d95','nearest and constant extrapolation of single points ignored/failed on irregular grids'),
('C02','c8f9ed7','constant extrapolation of a single point, vector valued and in place, was overwritten by the linear extension'),
('C02','ccbbbd4','constant extrapolation of single points with derivatives returned the wrong form'),
('C11','637c503','grid of one-dimensional LinearSpline / LinearSplines raised TypeError'),
('C06','73ee229','vec_multilinear_interpolation with out= raised NameError'),
('C18','3752742','nodes() failed on CGrid descriptions with irregular dimensions'),
('C08','b0a0ad3','Hermite interpolation at nan read past the end of the arrays'),
('C12','b7d30fd','gradient of cubic multi-splines outside of the grid was not the derivative of the extrapolated value'),
('C10','d9b2ae4','interpolation.splines.eval_cubic / filter_cubic became modules after spline objects had been used'),
('C22','3ea127c','templates with custom delimiters raised NameError (basestring)'),
('C22','7c0e988','HTML templates, attr() and bunch() raised AttributeError (cgi.escape, dict.iteritems)'),
('C23','a995dcb','eval_linear and eval_cubic at a single point took any fourth argument that is not an option for an output array and extrapolated linearly'),
('C24','0ba31ce','mlinterp printed to standard output when it refused vector values')]
json.dump(dict(comment='status "known" entries are reported as KNOWN-FINDING and suppress exactly the violation with that signature; "fixed" entries suppress nothing',
 findings=[dict(property=p,status='fixed',commit=c,what='fixed: property=%s %s %s'%(p,c,w)) for p,c,w in F]),open('/verif/known_findings.json','w'),indent=1)
