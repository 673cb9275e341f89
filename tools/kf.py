#!/usr/bin/env python3
"""writes known_findings.json (never called by a check)"""
import json, subprocess
fixed = [
 ('C03', 'cc3be3a', 'stack overwritten when the distribution function throws during phase-space integration'),
 ('C03', 'f007639', 'assertion failure (undefined behaviour) when Density/Potential is built from an invalid user function'),
 ('C03', '045d962', 'the error message of a parallel loop was assigned by several threads at once (heap corruption)'),
 ('C03', 'bd325d6', 'process terminated when an exception was thrown inside parallel loops of Target, JeansAxi and the velocity sampler'),
 ('C03', '9cde25f', 'an invalid value returned by a user function in single-point evaluation was silently replaced by -1 or raised SystemError'),
 ('C03', 'a011cc7', 'memory leaked by adaptive integration each time the integrand threw an exception'),
 ('C03', '19f5e87', 'multidimensional integration leaked its workspace each time the integrand reported an error'),
 ('C02', '7de8053', 'an error inside a GSL routine in one thread made unrelated computations in other threads fail'),
 ('C05', '7d50482', 'Rcirc, Tcirc, Rmax of an array of 256 or more points terminated the process when the interpolator could not be constructed'),
 ('C04', 'c7e3ced', 'a keyboard interrupt arriving in the last iteration of N-dimensional sampling was ignored'),
 ('C04', '429a0d3', 'a keyboard interrupt inside a user-defined Python function was reported as RuntimeError, ignored or turned into NaN'),
 ('C08', 'd93f664', 'BasisSet potential with nmax=0 could not be exported'),
 ('C08', '5e9b908', 'blank line after the coefficients in an exported file led to out-of-bounds access on loading'),
 ('C07', 'f24c638', 'truncated GalPot file led to out-of-bounds access or silently missing components'),
 ('C07', 'dd6d356', 'an input error in the middle of a file was mistaken for the end of file (silently truncated data)'),
 ('C06', 'dfb9745', 'write errors showing up only when flushing or closing a file were not reported'),
 ('C05', 'c9a44a8', 'derivatives of the distribution function at more than 1024 points were stored in wrong places'),
 ('C09', '0bb75d1', 'an empty value in a configuration file with Windows line endings was read as a carriage return'),
 ('C14', 'fc8f991', 'array of derivatives returned by a user-defined distribution function was never released'),
 ('C15', '5c7785d', 'out-of-bounds write when the interval between output points is below the roundoff error of time'),
 ('C15', 'b6d773e', 'process crashed when an Orbit object could not be constructed at the end of a batch of orbits'),
 ('C15', '38eed4d', 'reported progress exceeded the number of orbits when the progress bar released the GIL; its failures spoiled the result'),
 ('C03', '12e16de', 'argument of the ActionFinder constructor was examined without holding the GIL'),
 ('C02', 'c9f82dc', 'concurrent computations in several host threads corrupted the stack of interrupt handlers (crash, bad_alloc, or lost handler)'),
 ('C12', '5df6ad8', 'a failed allocation in multidimensional integration went unnoticed and gave an undefined result'),
 ('C12', 'a797d2b', 'a failed allocation at the end of the integration of an orbit terminated the process'),
 ('C12', 'c5c7776', 'a failed allocation in the projection of particles or in storing orbits caused a deadlock or terminated the process'),
 ('C12', '2d38594', 'a failed allocation of temporary arrays of a thread terminated the process'),
 ('C14', 'afc76a9', 'the previous list of components of a SelfConsistentModel was not released when replaced, and deleting it crashed'),
 ('C14', '39c0e52', 'the name of a spline object was never released (memory leak)'),
 ('C14', '13dc7f0', 'references to arrays leaked when other arguments are invalid, or when arrays are given as strings'),
 ('C14', 'f107871', "scalar argument 'matrix' of ghMoments crashed the program"),
 ('C14', '835501d', 'memory leaked when the Cholesky decomposition fails'),
]
findings = []
json.dump(dict(findings=findings, fixed=['fixed: property=%s %s %s' % f for f in fixed]), open('/verif/known_findings.json', 'w'), indent=1)
