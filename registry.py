"""Which harness entries decide which property, and within what bounds."""
GLOBAL_SKIP = ['msf_timing::Timing::Print(', 'std::ostream& Eigen::']
ASSUMPTIONS = []
MGR_SRCS = ['msf_updates/src/msf_distort/PoseDistorter.cc', 'msf_timing/src/Timer.cc', 'msf_core/src/lib/msf_tools.cc']
UNITS = {
  'timing_acc': dict(src='core_timing.cc'),
  'timing_reg': dict(src='timing_registry.cc', repo_srcs=['msf_timing/src/Timer.cc']),
  'kalman': dict(src='kalman.cc', inc=['msf_updates/src'], libs=['-lglog']),
  'correct': dict(src='correct.cc', inc=['msf_updates/src'], libs=['-lglog']),
  'fuzzy': dict(src='fuzzy.cc', inc=['msf_updates/src'], libs=['-lglog']),
  'sched': dict(src='sched.cc', libs=['-lglog'], repo_srcs=['msf_timing/src/Timer.cc', 'msf_core/src/lib/msf_tools.cc']),
  'imu': dict(src='imu.cc', libs=['-lglog'], repo_srcs=['msf_timing/src/Timer.cc', 'msf_core/src/lib/msf_tools.cc']),
  'extern': dict(src='extern.cc', libs=['-lglog'], repo_srcs=['msf_timing/src/Timer.cc', 'msf_core/src/lib/msf_tools.cc']),
  'buffers': dict(src='buffers.cc', libs=['-lglog'], repo_srcs=['msf_timing/src/Timer.cc', 'msf_core/src/lib/msf_tools.cc']),
  'pose_meas': dict(src='pose_meas.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_updates/src/msf_distort/PoseDistorter.cc']),
  'spherical': dict(src='spherical.cc', inc=['msf_updates/src'], libs=['-lglog']),
  'position_meas': dict(src='position_meas.cc', inc=['msf_updates/src'], libs=['-lglog']),
  'position_pose_meas': dict(src='position_meas.cc', inc=['msf_updates/src'], libs=['-lglog'], flags=['-DSTATE_HEADER=<position_pose_msf/msf_statedef.hpp>']),
  'pose_pos_meas': dict(src='pose_meas.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_updates/src/msf_distort/PoseDistorter.cc'], flags=['-DSTATE_HEADER=<position_pose_msf/msf_statedef.hpp>']),
  'pose_press_meas': dict(src='pose_meas.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_updates/src/msf_distort/PoseDistorter.cc'], flags=['-DSTATE_HEADER=<pose_pressure_msf/msf_statedef.hpp>']),
  'pressure_meas': dict(src='pressure_meas.cc', inc=['msf_updates/src'], libs=['-lglog']),
  'rel_pose': dict(src='rel_pose.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_updates/src/msf_distort/PoseDistorter.cc', 'msf_core/src/lib/msf_tools.cc', 'msf_timing/src/Timer.cc']),
  'relative': dict(src='relative.cc', libs=['-lglog'], repo_srcs=['msf_core/src/lib/msf_tools.cc', 'msf_timing/src/Timer.cc']),
  'cont': dict(src='container.cc', libs=['-lglog']),
  'cov': dict(src='cov.cc', inc=['msf_updates/src'], libs=['-lglog']),
  'noise': dict(src='noise.cc', inc=['msf_updates/src'], libs=['-lglog']),
  'pose_mgr': dict(src='pose_mgr.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=MGR_SRCS, flags=['-DHAS_SERVICES', '-DSTATE_HEADER=<pose_msf/msf_statedef.hpp>', '-DMGR_HEADER=<pose_msf/pose_sensormanager.h>', '-DMGR=msf_pose_sensor::PoseSensorManager', '-DMGR_CFG=msf_updates::SinglePoseSensorConfig']),
  'pose_press_mgr': dict(src='pose_mgr.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=MGR_SRCS, flags=['-DHAS_PRESSURE', '-DLEVEL(x)=msf_updates::PosePressureSensor_##x', '-DSTATE_HEADER=<pose_pressure_msf/msf_statedef.hpp>', '-DMGR_HEADER=<pose_pressure_msf/pose_pressure_sensormanager.h>', '-DMGR=msf_pose_pressure_sensor::PosePressureSensorManager', '-DMGR_CFG=msf_updates::PosePressureSensorConfig']),
  'pose_pos_mgr': dict(src='pose_mgr.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=MGR_SRCS + ['msf_core/src/lib/gps_conversion.cc'], flags=['-DHAS_POSITION', '-DLEVEL(x)=msf_updates::PositionPoseSensor_##x', '-DSTATE_HEADER=<position_pose_msf/msf_statedef.hpp>', '-DMGR_HEADER=<position_pose_msf/position_pose_sensormanager.h>', '-DMGR=msf_updates::PositionPoseSensorManager', '-DMGR_CFG=msf_updates::PositionPoseSensorConfig']),
  'pos_mgr': dict(src='pos_mgr.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=MGR_SRCS + ['msf_core/src/lib/gps_conversion.cc'], flags=['-DSTATE_HEADER=<position_msf/msf_statedef.hpp>', '-DMGR_HEADER=<position_msf/position_sensormanager.h>', '-DMGR=msf_position_sensor::PositionSensorManager', '-DMGR_CFG=msf_updates::SinglePositionSensorConfig']),
  'pos_pose_mgr': dict(src='pos_mgr.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=MGR_SRCS + ['msf_core/src/lib/gps_conversion.cc'], flags=['-DHAS_POSE', '-DLEVEL(x)=msf_updates::PositionPoseSensor_##x', '-DSTATE_HEADER=<position_pose_msf/msf_statedef.hpp>', '-DMGR_HEADER=<position_pose_msf/position_pose_sensormanager.h>', '-DMGR=msf_updates::PositionPoseSensorManager', '-DMGR_CFG=msf_updates::PositionPoseSensorConfig']),
  'sph_mgr': dict(src='sph_mgr.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=MGR_SRCS + ['msf_core/src/lib/gps_conversion.cc'], flags=['-DSTATE_HEADER=<spherical_msf/msf_statedef.hpp>', '-DMGR_HEADER=<spherical_msf/spherical_sensormanager.h>', '-DMGR=msf_spherical_position::SensorManager', '-DMGR_CFG=msf_updates::SphericalPositionSensorConfig']),
  'gps': dict(src='gps.cc', libs=['-lglog'], repo_srcs=['msf_core/src/lib/gps_conversion.cc']),
  'init': dict(src='init.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_timing/src/Timer.cc', 'msf_core/src/lib/msf_tools.cc']),
  'utils': dict(src='utils.cc', libs=['-lglog'], repo_srcs=['msf_core/src/similaritytransform.cc', 'msf_core/src/lib/msf_tools.cc']),
  'distort': dict(src='distort.cc', libs=['-lglog'], repo_srcs=['msf_updates/src/msf_distort/PoseDistorter.cc']),
  'vars': dict(src='statevars.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_core/src/lib/msf_tools.cc', 'msf_timing/src/Timer.cc'], flags=['-DSTATE_HEADER=<pose_msf/msf_statedef.hpp>']),
  'vars_press': dict(src='statevars.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_core/src/lib/msf_tools.cc', 'msf_timing/src/Timer.cc'], flags=['-DSTATE_HEADER=<pose_pressure_msf/msf_statedef.hpp>']),
  'vars_pos': dict(src='statevars.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_core/src/lib/msf_tools.cc', 'msf_timing/src/Timer.cc'], flags=['-DSTATE_HEADER=<position_pose_msf/msf_statedef.hpp>']),
  'vars_position': dict(src='statevars.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_core/src/lib/msf_tools.cc', 'msf_timing/src/Timer.cc'], flags=['-DSTATE_HEADER=<position_msf/msf_statedef.hpp>']),
  'vars_spherical': dict(src='statevars.cc', inc=['msf_updates/src'], libs=['-lglog'], repo_srcs=['msf_core/src/lib/msf_tools.cc', 'msf_timing/src/Timer.cc'], flags=['-DSTATE_HEADER=<spherical_msf/msf_statedef.hpp>']),
  'relay': dict(src='relay.cc', inc=['msf_distort/src'], libs=['-lglog']),
  'prop': dict(src='prop.cc', inc=['msf_updates/src'], libs=['-lglog']),
}
def _mgr(name, **kw):
  base = UNITS[name]; d = dict(base); d['src'] = 'pub.cc'; UNITS['pub_' + name] = d
for _m in ('pose_mgr', 'pose_press_mgr', 'pose_pos_mgr', 'pos_mgr', 'sph_mgr'): _mgr(_m)
for _m, _f in (('pose_mgr', ['-DHAS_POSE']), ('pose_press_mgr', ['-DHAS_POSE', '-DHAS_PRESSURE']), ('pose_pos_mgr', ['-DHAS_POSE', '-DHAS_POSITION']), ('pos_mgr', ['-DHAS_POSITION']), ('sph_mgr', ['-DHAS_SPHERICAL'])):
  _d = dict(UNITS[_m]); _d['src'] = 'sensors.cc'; _d['flags'] = [x for x in _d['flags'] if not x.startswith('-DHAS_')] + _f; UNITS['sens_' + _m] = _d
for _m in ('pos_mgr', 'pose_mgr'): UNITS['e2e_' + _m] = dict(UNITS[_m], src='e2e.cc', flags=[x for x in UNITS[_m]['flags'] if not x.startswith('-DHAS_')] + (['-DHAS_POSE'] if _m == 'pose_mgr' else []))
PUBS = (('pub_pose_mgr', ''), ('pub_pose_press_mgr', '_press'), ('pub_pose_pos_mgr', '_pos'), ('pub_pos_mgr', '_position'), ('pub_sph_mgr', '_spherical'))
PROPS = {
  'Y01': dict(entries=[dict(name=n+x, unit='vars'+x, fn='h_vars_'+n) for x in ('', '_press', '_pos', '_position', '_spherical') for n in ('values', 'cov', 'noise', 'reset')]),
  'H04': dict(entries=[dict(name='sensors'+x, unit=u.replace('pub_', 'sens_'), fn='h_sensors') for u, x in PUBS]),
  'D01': dict(entries=[dict(name=n, unit='distort', fn='h_dist_'+n, bound=b) for n,b in (('position','4 steps'),('attitude','2 steps'),('both','2 steps'),('noise','3 steps, one sequence of random numbers'),('noise_att','1 step, one sequence of random numbers'))] + [dict(name='sensor', unit='pose_mgr', fn='h_mgr_distorted', bound='3 poses')]),
  'D02': dict(entries=[dict(name='relay', unit='relay', fn='h_relay', bound='every message kind twice')]),
  'U01': dict(entries=[dict(name=n, unit='utils', fn='h_util_'+n, bound=b, reach=r) for n,b,r in (('matrices','',['end']),('small','',['end','small','large']),('small_first','',['end']),('numeric','3x4',['end']),('numeric_dyn','2x3, sized at run time',['end']),('numeric_vec','10 values',['end']),('conv','',['end']),('cov','',['end']),('time','within 30000 s',['end']))] + [dict(name='state'+x, unit='vars'+x, fn='h_vars_numeric', bound='') for x in ('', '_position')]),
  'U02': dict(entries=[dict(name=n, unit='utils', fn='h_sim_'+n, bound=b, opts=['--round-const']) for n,b in (('recover','2 to 4 pairs, fixed attitudes and second positions'),('least','4 pairs, fixed attitudes and second positions'),('mean','2 or 4 pairs, fixed attitudes'),('few',''))]),
  'I03': dict(entries=[dict(name=n, unit='init', fn='h_init_'+n, bound=b, reach=r) for n,b,r in (('values','9 selections of given states',['end']),('cov','3 entries',['end','default','given']),('first','',['end']),('takeback','',['end']),('fuzzy','0, 30 or 60 earlier corrections',['end']),('reset','',['end']))]),
  'P01': dict(entries=[dict(name=n+x, unit=u, fn='h_pub_'+n, bound='') for u, x in PUBS for n in ('propagation', 'update', 'frames', 'noise')]),
  'P02': dict(entries=[dict(name=n+x, unit=u, fn='h_pub_'+n, bound='') for u, x in PUBS[:1] + PUBS[3:4] for n in ('correction', 'playback', 'initial', 'nan')]),
  'H05': dict(entries=[dict(name='imu'+x, unit=u, fn='h_imu_topic', bound='') for u, x in PUBS] + [dict(name='external'+x, unit=u, fn='h_ext_topic', reach=['end', 'taken', 'integrated'], bound='') for u, x in PUBS] + [dict(name='nan', unit='pub_pose_mgr', fn='h_ext_nan', bound='')]),
  'H03': dict(entries=[dict(name='pressure', unit='pub_pose_press_mgr', fn='h_pressure_topic', bound='14 readings used')]),
  'I01': dict(entries=[dict(name=n+x, unit=u, fn='h_mgr_'+n, bound=b) for u,x,xs in (('pose_mgr','',('srv_scale','srv_height','srv_refuse')),('pose_press_mgr','_press',()),('pose_pos_mgr','_pos',())) for n,b in [('init' if u == 'pose_mgr' else 'init_fixed','')] + [('init_height',''),('init_none',''),('norestart','')] + [(k,'') for k in xs]]),
  'N01': dict(entries=[dict(name=n+x, unit=u, fn='h_mgr_'+n, bound='', **r) for u,x in (('pose_mgr',''),('pose_press_mgr','_press'),('pose_pos_mgr','_pos')) for n,r in (('config',{}),('core',{}),('sanity',dict(reach=['end','negative','kept'])))]),
  'I02': dict(entries=[dict(name='position', unit='pos_mgr', fn='h_mgr_init', bound='5 headings'), dict(name='norestart', unit='pos_mgr', fn='h_mgr_norestart', bound=''), dict(name='spherical', unit='sph_mgr', fn='h_mgr_init', bound='3 headings'), dict(name='norestart_spherical', unit='sph_mgr', fn='h_mgr_norestart', bound='')]),
  'N02': dict(entries=[dict(name='position', unit='pos_mgr', fn='h_mgr_position_config', bound=''), dict(name='position_pose', unit='pos_pose_mgr', fn='h_mgr_position_config', bound=''), dict(name='core', unit='pos_mgr', fn='h_mgr_core', bound=''), dict(name='spherical', unit='sph_mgr', fn='h_mgr_config', bound='', reach=['end','discarded'])]),
  'H02': dict(entries=[dict(name=n+x, unit=u, fn='h_mgr_'+f, bound='', reach=['end','discarded'] if f in ('gps','position_kinds') else ['end']) for u,x in (('pos_mgr',''),('pos_pose_mgr','_pose')) for n,f in (('kinds','position_kinds'),('gps','gps'),('gps_adjust','gps_adjust'),('gps_own','gps_own'))]),
  'G01': dict(entries=[dict(name=n, unit='gps', fn='h_gps_'+n, bound='latitude within 80 degrees') for n in ('enu','origin','ecef','route','adjust')]),
  'H01': dict(entries=[dict(name=n+x, unit=u, fn='h_mgr_'+n, bound=b, **r) for u,x in (('pose_mgr',''),('pose_press_mgr','_press'),('pose_pos_mgr','_pos')) for n,b,r in (('throttle','4 messages',{}),('kinds','',dict(reach=['end','discarded'])))]),
  'R01': dict(entries=[dict(name=n, unit='rel_pose', fn='h_rel_'+n, bound=b) for n,b in (('residual','drift and calibration attitudes fixed'),('jac_new','drift and calibration attitudes fixed'),('jac_old','drift and calibration attitudes fixed'),('first',''))] + [dict(name=n, unit='relative', fn='h_'+n, bound=b) for n,b in (('prev','4 measurements'),('accum','up to 3 steps'),('rel_update1','1 row, 3 coupled states'),('rel_update2','2 rows, 2 coupled states'),('rel_sym','3 asymmetric pairs'))]),
  'J02': dict(entries=[dict(name=n+x, unit=u, fn='h_pos_'+n, bound=b) for u,x,b in (('position_meas','','state of the position filter'),('position_pose_meas','_pose','state of the position and pose filter')) for n in ('residual','jacobian','fixed','message')]),
  'J04': dict(entries=[dict(name='update', unit='pressure_meas', fn='h_pressure', bound=''), dict(name='invalid', unit='pressure_meas', fn='h_pressure_invalid')]),
  'J03': dict(entries=[dict(name=n, unit='spherical', fn='h_sph_'+n, bound=b) for n,b in (('angle','distance from the vertical axis at least 0.5'),('points','one point per quadrant and half-axis'),('angle_jac',''),('dist',''),('dist_jac',''),('angle_fixed',''),('dist_fixed',''))]),
  'J01': dict(entries=[dict(name=n, unit='pose_meas', fn='h_pose_'+n, bound=b) for n,b in (('residual',''),('jacobian',''),('fixed','every subset of fixed states'),('message',''))] + [dict(name=n+'_'+u, unit='pose_'+u+'_meas', fn='h_pose_'+n, bound='state with '+x) for u,x in (('pos','position sensor offset'),('press','pressure bias')) for n in ('jacobian','fixed')]),
  'S05': dict(entries=[dict(name=n, unit='buffers', fn='h_buf_'+n, bound=b, reach=rc) for n,b,rc in (('bounded','9 states, 220 further look-ups',['end','old','young']),('during','9 states, 3 measurements',['end','young']),('meas','4 measurements, 250 look-ups',['end','young','old']))]),
  'S04': dict(entries=[dict(name=n, unit='extern', fn='h_ext_'+n, bound=b, reach=rc) for n,b,rc in (('seq','4 messages, one measurement',['end']),('cov','2 messages',['end']),('raw','2 messages',['end']),('spike','2 messages',['end','spike','normal']),('gap','2 messages',['end']),('uninit','1 message',['end']),('gap_imu','1 message, 1 reading',['end']),('mixed','up to 2 IMU readings, 2 external states, 2 IMU readings',['end']))]),
  'S03': dict(entries=[dict(name=n, unit='imu', fn='h_'+n, bound=b, reach=rc) for n,b,rc in (('imu_spike','5 readings',['end','spike','normal']),('imu_spike2','5 readings',['end','spike','normal']),('imu_gap','6 readings, gap at any of the first three',['end','forward','backward','measured']),('imu_nogap','5 readings',['end']),('imu_backwards','5 readings, then one from the past',['end','reset','tolerated']),('imu_repeat','5 readings, one repeated',['end']),('reinit','4 readings before and after',['end']),('imu_nan','5 readings, any of them not a number in any component, a measurement up to two readings late',['end','now','lag']))]),
'S01': dict(entries=[dict(name=n, unit='sched', fn='h_late_'+n, bound=b, defs_thorough=['W2=3'], time=dict(quick=300, thorough=1500)) for n,b in (('between','5 readings, one measurement between two readings'),('on','5 readings, measurement on a reading'),('two','5 readings, two measurements'),('readings','fixed times, arbitrary readings'),('snap','measurement within 1 ms of a reading'),('two_snap','5 readings, two measurements, one within 1 ms of a reading'),('hole','7 readings with a hole, two measurements'),('far','400 readings, 41 measurements'),('same','two or three measurements within 1 ms of one reading, in any order'))] + [dict(name='node_'+n, unit='e2e_'+u, fn='h_e2e_order', bound='8 readings, 2 measurements, fixed times, certain attitude', opts=['--round-const']) for n,u in (('position','pos_mgr'),('pose','pose_mgr'))]),
  'S02': dict(entries=[dict(name=n, unit='sched', fn='h_'+n, bound=b) for n,b in (('future_one','6 readings'),('future_two','7 readings, two waiting measurements'),('future_three','8 readings, three waiting measurements'),('future_many','51 readings, 24 waiting measurements'),('too_old',''),('duplicate',''),('no_state_near',''),('not_ready',''))]),
  'F01': dict(entries=[dict(name='once', unit='fuzzy', fn='h_fuzzy', reach=['end','fuzzy','ok'], bound='30 equal reference attitudes, then one arbitrary correction'), dict(name='wrap', unit='fuzzy', fn='h_fuzzy_wrap', reach=['end','fuzzy','ok'], bound='61 reference attitudes'), dict(name='median', unit='fuzzy', fn='h_fuzzy_median', reach=['end','fuzzy','ok'], bound='a minority of 9 outliers in the reference'), dict(name='persist', unit='fuzzy', fn='h_fuzzy_persist', bound='30 reference, 40 flagged, 3 further updates, every threshold in [0.1,0.4]'), dict(name='window', unit='fuzzy', fn='h_fuzzy_window', bound='30 or 60 reference attitudes, a stray one at one of 6 places, then 30 and two further updates'), dict(name='slide', unit='fuzzy', fn='h_fuzzy_slide', bound='159 updates, thresholds in [0.7,1]'), dict(name='reset', unit='fuzzy', fn='h_fuzzy_reset', bound='reset after 7 or 45 updates'), dict(name='collect', unit='fuzzy', fn='h_fuzzy_collect', bound='30 arbitrary attitudes'),
     dict(name='median3', unit='fuzzy', fn='h_median3', bound='3 values'), dict(name='median4', unit='fuzzy', fn='h_median4', bound='4 values'), dict(name='median5', unit='fuzzy', fn='h_median5', bound='5 values')]),
  'M03': dict(entries=[dict(name='correct', unit='correct', fn='h_correct', bound='every correction component in [-3,3]; one quaternion corrected at a time'), dict(name='uninit', unit='correct', fn='h_correct_uninit')]),
  'M02': dict(entries=[dict(name=n, unit='kalman', fn='h_gate_'+n, bound=b, reach=['end','accepted','rejected']) for n,b in (('1','1 row'),('2','2 rows'),('1d','1 row, dynamic sizes'),('2d','2 rows, dynamic sizes'))]),
  'M01': dict(entries=[dict(name='k1', unit='kalman', fn='h_kal_1'), dict(name='k1d', unit='kalman', fn='h_kal_1d'), dict(name='k2', unit='kalman', fn='h_kal_2'), dict(name='k3', unit='kalman', fn='h_kal_3'), dict(name='symmetric', unit='kalman', fn='h_kal_sym', bound='3 asymmetric pairs')]),
  'T02': dict(entries=[dict(name='timer', unit='timing_reg', fn='h_timer', bound='2 timer uses over 3 tags (quick), 3 (thorough)', defs_quick=['OPS=2'], defs_thorough=['OPS=3'], time=dict(quick=200, thorough=900)), dict(name='reset', unit='timing_reg', fn='h_timer_reset', bound=''), dict(name='overlap', unit='timing_reg', fn='h_timer_overlap', bound='3 starts and stops of 3 timers over 2 tags (quick), 4 (thorough)', defs_quick=['STEPS=3'], defs_thorough=['STEPS=4'], time=dict(quick=200, thorough=900)), dict(name='rate', unit='timing_reg', fn='h_timer_rate', bound='53 intervals, 4 of them arbitrary'), dict(name='across', unit='timing_reg', fn='h_timer_across', bound=''), dict(name='many', unit='timing_reg', fn='h_timer_many', bound='300 tags')]),
  'C01': dict(entries=[dict(name='insert', unit='cont', fn='h_cont_insert', bound='up to 4 insertions'), dict(name='large', unit='cont', fn='h_cont_large', bound='12800 elements and one at an arbitrary time', reach=['end'])]),
  'C02': dict(entries=[dict(name='lookup', unit='cont', fn='h_cont_lookup', bound='up to 4 elements, one query')]),
  'C03': dict(entries=[dict(name='clear', unit='cont', fn='h_cont_clear', bound='up to 4 elements'), dict(name='retime', unit='cont', fn='h_cont_retime', bound='up to 4 elements'), dict(name='clear_large', unit='cont', fn='h_cont_clear_large', bound='12800 elements', reach=['end'])]),
  'K02': dict(entries=[dict(name='transition', unit='cov', fn='h_cov_transition', bound='one step'), dict(name='propagate', unit='cov', fn='h_cov_propagate', bound=''), dict(name='propagate_all', unit='cov', fn='h_cov_propagate_all', bound='')]),
  'K03': dict(entries=[dict(name='reject', unit='noise', fn='h_cov_reject', bound='one step'), dict(name='chain', unit='noise', fn='h_cov_chain', bound='5 buffered states'), dict(name='onestep', unit='noise', fn='h_cov_onestep', bound='5 buffered states')]),
  'K04': dict(entries=[dict(name=n, unit='noise', fn='h_noise_'+n, bound=b) for n,b in (('zero',''),('acc',''),('accbias',''),('gyrobias','orders below 6 in the interval'),('gyro','orders below 6 in the interval'),('gyro_vel','orders below 6 in the interval'),('gyro_vel2','orders below 6 in the interval'),('gyro_att','orders below 6 in the interval'),('aux',''),('again',''))]),
  'K01': dict(entries=[dict(name='kinematics', unit='prop', fn='h_prop_kinematics', bound='one step'), dict(name='att_const', unit='prop', fn='h_prop_attitude_const'), dict(name='att_unit', unit='prop', fn='h_prop_attitude_unit'), dict(name='att', unit='prop', fn='h_prop_attitude')]),
  'T01': dict(entries=[dict(name='acc', unit='timing_acc', fn='h_acc_real', bound='window 4, up to 8 samples in [-100,100]'), dict(name='long', unit='timing_acc', fn='h_acc_long', bound='window 50, 260 samples, 4 of them arbitrary')]),
}
