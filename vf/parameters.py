"""The documented run parameters: type, default, unit and aliases (pinned from the original repository)."""

TABLE = {
    'FailModeDump': ('int', '1', None, []),
    'adiabaticChangeAlg': ('int', '1', None, []),
    'adiabaticFocusAlg': ('int', '1', None, []),
    'aziSunStart': ('float', '0.0', 'rad', []),
    'boundaryFunctAmplitude': ('float', '1.0', '1 / (cm^2 * s * sr * (MeV/nuc))', ['J0']),
    'boundaryFunctBeta': ('float', '2.0', '1', ['beta']),
    'boundaryFunctEcutoff': ('float', '1.0', 'MeV', ['E0']),
    'boundaryFunctEr': ('float', '1.0', 'MeV', ['Er', 'reference energy']),
    'boundaryFunctGamma': ('float', '2.0', '1', ['gamma']),
    'boundaryFunctR0': ('float', '1.0', 'au', ['R0', 'r0', 'reference radius']),
    'boundaryFunctXi': ('float', '1.0', '1', ['xi']),
    'boundaryFunctionInitDomain': ('int', '1', None, []),
    'charge': ('list', '[1.0]', 'e', []),
    'checkSeedPopulation': ('int', '1', None, []),
    'dsh_hel_min': ('float', '2.5e-4', None, []),
    'dsh_min': ('float', '5.0e-5', None, []),
    'dumpFreq': ('int', '1', None, []),
    'dumpOnAbort': ('int', '0', None, []),
    'eMax': ('float', '1000.0', 'MeV/nuc', []),
    'eMin': ('float', '1.0', 'MeV/nuc', []),
    'epCalcStartTime': ('float', 'config.simStartTime', 'day', []),
    'epEquilibriumCalcDuration': ('float', '0.0', 'day', []),
    'epremDomain': ('int', '0', None, []),
    'epremDomainOutputTime': ('float', '0.0', 'day', []),
    'fieldAligned': ('int', '0', None, []),
    'flowMag': ('float', '400.0e5', 'cm/s', []),
    'fluxLimiter': ('int', '1', None, []),
    'focusingLimit': ('float', '1.0', None, []),
    'gammaEhigh': ('float', '0.0', '1', []),
    'gammaElow': ('float', '0.0', '1', []),
    'idealShock': ('int', '0', None, []),
    'idealShockFalloff': ('float', '0.0', None, []),
    'idealShockInitTime': ('float', 'config.simStartTime', 'day', []),
    'idealShockJump': ('float', '4.0', '1', []),
    'idealShockPhi': ('float', '0.0', 'rad', []),
    'idealShockPhiWidth': ('float', 'config.idealShockWidth', 'rad', []),
    'idealShockScale': ('float', 'config.idealShockSharpness / config.idealShockScaleLength', 'au', []),
    'idealShockScaleLength': ('float', '0.0046491', 'au', []),
    'idealShockSharpness': ('float', '1.0', '1', []),
    'idealShockSpeed': ('float', '1500e5', 'cm/s', []),
    'idealShockTheta': ('float', 'HALF_PI', 'rad', []),
    'idealShockThetaWidth': ('float', 'config.idealShockWidth', 'rad', []),
    'idealShockWidth': ('float', '0.0', 'rad', []),
    'idw_p': ('float', '3.0', '1', []),
    'kperxkpar': ('float', '0.01', '1', ['kper_kpar', 'kper/kpar', 'kper / kpar']),
    'lamo': ('float', '1.0', 'au', ['lam0', 'lambda0']),
    'mass': ('list', '[1.0]', 'nucleon', []),
    'mfpRadialPower': ('float', '2.0', '1', ['mfp_radial_power']),
    'mhdBAu': ('float', '1.60e-5', 'G', []),
    'mhdBConvert': ('float', '1.0', '1', []),
    'mhdCouple': ('int', '0', None, []),
    'mhdCoupledTime': ('int', '1', None, []),
    'mhdDensityAu': ('float', '8.30', 'cm^-3', []),
    'mhdDigits': ('int', '3', None, []),
    'mhdDirectory': ('str', '', None, []),
    'mhdInitFromOuterBoundary': ('int', '2', None, []),
    'mhdInitMonteCarlo': ('int', '0', None, []),
    'mhdInitRadius': ('float', '0.0', 'au', []),
    'mhdInitTimeStep': ('float', '0.000011574074074', 'day', []),
    'mhdNumFiles': ('int', '0', None, []),
    'mhdRadialMax': ('float', '0.0', 'au', []),
    'mhdRadialMin': ('float', '0.0', 'au', []),
    'mhdRhoConvert': ('float', '1.0', '1', []),
    'mhdRotateSolution': ('int', '1', None, []),
    'mhdStartTime': ('float', '0.0', 'day', []),
    'mhdSteadyState': ('int', '1', None, []),
    'mhdTimeConvert': ('float', '1.0', '1', []),
    'mhdVConvert': ('float', '1.0', '1', []),
    'mhdVmin': ('float', '50.0e5', 'cm/s', []),
    'minInjectionEnergy': ('float', '0.01', 'MeV', []),
    'numColumnsPerFace': ('int', '2', None, []),
    'numEnergySteps': ('int', '20', None, []),
    'numEpSteps': ('int', '30', None, []),
    'numMuSteps': ('int', '20', None, []),
    'numNodesPerStream': ('int', 'N_PROCS', None, []),
    'numObservers': ('int', '0', '1', []),
    'numRowsPerFace': ('int', '2', None, []),
    'numSpecies': ('int', '1', None, []),
    'obsPhi': ('list', '[0.0]', 'rad', []),
    'obsR': ('list', '[config.rScale]', 'au', []),
    'obsTheta': ('list', '[0.0]', 'rad', []),
    'omegaSun': ('float', '0.001429813', 'rad * cm / (au * s)', []),
    'outputFloat': ('int', '0', None, []),
    'outputRestart': ('int', '0', None, []),
    'parallelFlow': ('float', '0.0', None, []),
    'pointObserverOutput': ('int', '0', None, []),
    'pointObserverOutputTime': ('float', '0.0', 'day', []),
    'preEruptionDuration': ('float', '0.0', 'day', []),
    'rScale': ('float', 'RSAU', 'au', []),
    'rigidityPower': ('float', 'third', '1', ['rigidity_power']),
    'saveRestartFile': ('int', '0', None, []),
    'seedFunctionTest': ('int', '0', None, []),
    'shockDetectPercent': ('float', '1.0', '1', []),
    'shockInjectionFactor': ('float', '1.0', '1', []),
    'shockSolver': ('int', '0', None, []),
    'simStartTime': ('float', '0.0', 'day', []),
    'simStopTime': ('float', 'config.simStartTime + config.tDel', 'day', []),
    'streamFluxOutput': ('int', '0', None, []),
    'streamFluxOutputTime': ('float', '0.0', 'day', []),
    'streamSpawnLocAzi': ('list', '[0.0]', 'rad', []),
    'streamSpawnLocZen': ('list', '[0.0]', 'rad', []),
    'subTimeCouple': ('int', '0', None, []),
    'tDel': ('float', '0.01041666666667', 'day', []),
    'unifiedOutput': ('int', '1', None, []),
    'unifiedOutputTime': ('float', '0.0', 'day', []),
    'unstructuredDomain': ('int', '0', None, []),
    'unstructuredDomainOutputTime': ('float', '0.0', 'day', []),
    'useAdiabaticChange': ('int', '1', None, []),
    'useAdiabaticFocus': ('int', '1', None, []),
    'useBoundaryFunction': ('int', '1', None, []),
    'useDegrees': ('int', '0', None, []),
    'useDrift': ('int', '0', None, []),
    'useEPBoundary': ('int', '1', None, []),
    'useManualStreamSpawnLoc': ('int', '0', None, []),
    'useMhdSteadyStateDt': ('int', '1', None, []),
    'useParallelDiffusion': ('int', '1', None, []),
    'useShellDiffusion': ('int', '0', None, []),
    'useStochastic': ('int', '0', None, []),
    'warningsFile': ('str', 'warningsXXX.txt', None, []),
}

CONSTANTS = {
    'AU': ('float', '1.495978707e13'),
    'C': ('float', '2.99792458e10'),
    'DAY': ('float', '( TAU / (24.0 * 60.0 * 60.0)  )'),
    'DEG2RAD': ('float', '(PI/180.0)'),
    'EV': ('float', '1.6022e-12'),
    'F': ('int', '0'),
    'FCONVERT': ('float', '( 1.0e30 / (C * C * C * C) )'),
    'GEV': ('float', '1.6022e-3'),
    'HALF_PI': ('float', '1.5707963267948966'),
    'LARGEFLOAT': ('float', '1.0e33'),
    'LARGEINT': ('int', '2147483647'),
    'MAX_STRING_SIZE': ('int', '240'),
    'MEV': ('float', '1.6022e-6'),
    'MHD_B_NORM': ('float', '( sqrt(MP*MHD_DENSITY_NORM) * C )'),
    'MHD_COUPLED': ('int', '1'),
    'MHD_DEFAULT': ('int', '0'),
    'MHD_DENSITY_NORM': ('float', '1.0'),
    'MP': ('float', '1.6726e-24'),
    'MZERO': ('float', '(MP*C*C/GEV)'),
    'OM': ('float', '( MHD_B_NORM * Q * AU / (MP * C * C) )'),
    'PI': ('float', '3.141592653589793'),
    'Q': ('float', '4.80320425e-10'),
    'RAD2DEG': ('float', '(180.0/PI)'),
    'RSAU': ('float', '(RSUN/AU)'),
    'RSUN': ('float', '6.96e10'),
    'SMALLFLOAT': ('float', '1.0e-33'),
    'T': ('int', '1'),
    'TAU': ('float', '( AU / C )'),
    'THRESH': ('float', '0.025'),
    'TWO_PI': ('float', '6.283185307179586'),
    'VOLT': ('float', '0.33333e-2'),
}
