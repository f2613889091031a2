"""What decides each property: design models, driver, trace specification."""
CHECKS = {
    'P01': dict(driver='d_files', trace='T_MapFS', quick=9600, thorough=40000,
                mc=[dict(module='MC_MapFS', cfg='MC_MapFS.cfg', workers=2)]),
    'P02': dict(driver='d_files', trace='T_MapFS', quick=3840, thorough=12000,
                mc=[dict(module='MC_MapFS', cfg='MC_MapFS.cfg', workers=2)]),
    'P03': dict(driver='d_files', trace='T_MapFS', quick=1600, thorough=12000,
                mc=[dict(module='MC_MapFS', cfg='MC_MapFS.cfg', thorough_cfg='MC_MapFS_big.cfg', workers=2)],
                gen=dict(module='GenMapFS', cfg='GenMapFS.cfg', num=300, thorough_num=4000, depth=40)),
    'P04': dict(driver='d_average', trace='T_Average', quick=3840, thorough=6000,
                mc=[dict(module='MC_Averaging', cfg='MC_Averaging.cfg', thorough_cfg='MC_Averaging_big.cfg', workers=2)]),
    'P05': dict(driver='d_average', trace='T_Average', quick=3840, thorough=6000,
                mc=[dict(module='MC_Averaging', cfg='MC_AveragingLong.cfg', workers=2)]),
    'P06': dict(driver='d_average', trace='T_Average', quick=3840, thorough=6000,
                mc=[dict(module='MC_Averaging', cfg='MC_Averaging.cfg', thorough_cfg='MC_Averaging_big.cfg', workers=2)]),
    'P07': dict(driver='d_average', trace='T_Average', quick=2560, thorough=4000,
                also=[dict(driver='d_resample', trace='T_Resample', quick=1280, thorough=6000)],
                mc=[dict(module='MC_Averaging', cfg='MC_Averaging.cfg', thorough_cfg='MC_Averaging_big.cfg', workers=2)]),
    'P08': dict(driver='d_resample', trace='T_Resample', quick=3840, thorough=16000,
                mc=[dict(module='MC_Resample', cfg='MC_Resample.cfg', thorough_cfg='MC_Resample_big.cfg', workers=2)]),
    'P09': dict(driver='d_formats', trace='T_Formats', quick=3200, thorough=12000,
                mc=[dict(module='Formats', cfg='MC_Formats.cfg', thorough_cfg='MC_Formats_big.cfg')]),
    'P10': dict(driver='d_formats', trace='T_Formats', quick=2560, thorough=8000,
                mc=[dict(module='MC_Lines', cfg='MC_Lines.cfg', thorough_cfg='MC_Lines_big.cfg')]),
    'P11': dict(driver='d_resample', trace='T_Resample', quick=5120, thorough=20000,
                mc=[dict(module='MC_Resample', cfg='MC_Means.cfg', thorough_cfg='MC_Means_big.cfg', workers=2)]),
    'P12': dict(driver='d_interface', trace='T_Interface', quick=12800, thorough=120000,
                mc=[dict(module='MC_Interface', cfg='MC_Interface.cfg', thorough_cfg='MC_Interface_big.cfg', workers=2)]),
    'P13': dict(driver='d_interface', trace='T_Interface', quick=12800, thorough=120000,
                mc=[dict(module='MC_Interface', cfg='MC_Interface.cfg', thorough_cfg='MC_Interface_big.cfg', workers=2)]),
    'P25': dict(driver='d_interface', trace='T_Interface', quick=12800, thorough=100000,
                also=[dict(driver='d_outline', trace='T_Outline', quick=3200, thorough=30000)],
                mc=[dict(module='MC_Outline', cfg='MC_Outline.cfg', thorough_cfg='MC_Outline_big.cfg', workers=2)]),
    'P22': dict(driver='d_sample', trace='T_Sample', quick=5120, thorough=30000,
                mc=[dict(module='MC_Sample', cfg='MC_Sample.cfg', thorough_cfg='MC_Sample_big.cfg', workers=2)]),
    'P28': dict(driver='d_sample', trace='T_Sample', quick=5120, thorough=30000,
                mc=[dict(module='MC_Sample', cfg='MC_Sample.cfg', thorough_cfg='MC_Sample_big.cfg', workers=2)]),
    'P21': dict(driver='d_series', trace='T_Series', quick=3200, thorough=12000,
                also=[dict(driver='d_sample', trace='T_Sample', quick=1920, thorough=12000)],
                mc=[dict(module='MC_Sample', cfg='MC_Sample.cfg', thorough_cfg='MC_Sample_big.cfg', workers=2)]),
    'P20': dict(driver='d_flow', trace='T_FlowHeap', quick=0, thorough=0,
                mc=[dict(module='MC_FlowHeap', cfg='MC_FlowHeap.cfg', thorough_cfg='MC_FlowHeap_big.cfg', workers=2)],
                gen=dict(module='MC_FlowHeap', cfg='GenFlowHeap.cfg', num=1800, thorough_num=20000, depth=20)),
    'P14': dict(driver='d_spreading', trace='T_Spreading', quick=5120, thorough=30000,
                gen=dict(module='MC_Spreading', cfg='GenSpreading.cfg', num=180, thorough_num=4000, depth=20)),
    'P15': dict(driver='d_spreading', trace='T_Spreading', quick=1280, thorough=8000,
                mc=[dict(module='MC_Spreading', cfg='MC_Spreading.cfg', thorough_cfg='MC_Spreading_big.cfg', workers=2)],
                gen=dict(module='MC_Spreading', cfg='GenSpreading.cfg', num=1200, thorough_num=30000, depth=20)),
    'P16': dict(driver='d_layers', trace='T_Layers', quick=2560, thorough=16000,
                mc=[dict(module='MC_Layers', cfg='MC_Layers.cfg', thorough_cfg='MC_Layers_big.cfg', workers=2)],
                gen=dict(module='MC_Layers', cfg='GenLayers.cfg', num=900, thorough_num=20000, depth=100)),
    'P23': dict(driver='d_outline', trace='T_Outline', quick=1280, thorough=40000,
                mc=[dict(module='MC_Outline', cfg='MC_Outline.cfg', thorough_cfg='MC_Outline_big.cfg', workers=2)]),
    'P24': dict(driver='d_outline', trace='T_Outline', quick=1200, thorough=20000,
                mc=[dict(module='MC_Outline', cfg='MC_Outline.cfg', thorough_cfg='MC_Outline_big.cfg', workers=2)]),
    'P17': dict(driver='d_contact', trace='T_ContactLine', quick=9600, thorough=60000,
                mc=[dict(module='MC_ContactLine', cfg='MC_ContactCells.cfg', thorough_cfg='MC_ContactCells_big.cfg', workers=2)]),
    'P18': dict(driver='d_contact', trace='T_ContactLine', quick=1920, thorough=12000,
                mc=[dict(module='MC_ContactLine', cfg='MC_ContactLine.cfg', thorough_cfg='MC_ContactLine_big.cfg', workers=2)],
                gen=dict(module='MC_ContactLine', cfg='GenContactLine.cfg', num=480, thorough_num=10000, depth=20)),
    'P19': dict(driver='d_contact', trace='T_ContactLine', quick=1920, thorough=12000,
                mc=[dict(module='MC_ContactLine', cfg='MC_ContactLine.cfg', thorough_cfg='MC_ContactLine_big.cfg', workers=2)],
                gen=dict(module='MC_ContactLine', cfg='GenContactLine.cfg', num=480, thorough_num=10000, depth=20)),
    'P29': dict(driver='d_view', trace='T_View', quick=1200, thorough=16000,
                mc=[dict(module='MC_Sample', cfg='MC_View.cfg', thorough_cfg='MC_View_big.cfg', workers=2)]),
    'P26': dict(driver='d_curves', trace='T_Curves', quick=2400, thorough=60000,
                mc=[dict(module='MC_Curves', cfg='MC_Curves.cfg', thorough_cfg='MC_Curves_big.cfg', workers=2)]),
    'P27': dict(driver='d_curves', trace='T_Curves', quick=3600, thorough=60000,
                mc=[dict(module='MC_Fit', cfg='MC_Fit.cfg', thorough_cfg='MC_Fit_big.cfg', workers=2)]),
    'P30': dict(driver='d_cli', trace='T_Cli', quick=0, thorough=0,
                mc=[dict(module='MC_Cli', cfg='MC_Cli.cfg', thorough_cfg='MC_Cli_big.cfg', workers=2)],
                gen=dict(module='MC_Cli', cfg='GenCli.cfg', thorough_cfg='GenCli_big.cfg', num=0, thorough_num=0, depth=0)),
    'P31': dict(driver='d_decor', trace='T_Decor', quick=320, thorough=12000,
                mc=[dict(module='MC_Decor', cfg='MC_Decor.cfg', thorough_cfg='MC_Decor_big.cfg', workers=2)],
                gen=dict(module='MC_Decor', cfg='GenDecor.cfg', num=208, thorough_num=10000, depth=12)),
}
