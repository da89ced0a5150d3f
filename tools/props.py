import json
C='ta-lib-rt/c/'
F=C+'src/ta_func/'
def P(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=obs or [],hook_needed=None))
def m(n,w): return dict(name=n,where=w)
L=[]
L.append(P('C01','A stream gives the batch result bar by bar',
 'For every function and every valid parameter set, feeding the bars of a series one at a time into a fresh stream yields exactly what the batch call over the whole series yields: "need more data" for exactly the first lookback bars, and from then on, at every bar, success with the same value in every output as the batch call has at that bar. This holds with any unstable period, compatibility and candle settings that stay unchanged during the run.',
 ['inputs','histories','configurations'],'every function (165), every valid parameter combination incl. defaults and extreme periods, every input series of any length, every unstable period, compatibility and candle setting',
 'The regression tests use one fixed 252-bar series and a few parameters; many streams are never run, and none with ring wrap, period 1, tied values, unstable periods or other MA types.',
 [F+'ta_*.c',C+'include/ta_defs.h',C+'include/ta_func.h'],
 [m('TA_X_StateInit / TA_X_State','second half of each ta_func/ta_*.c'),m('ring buffer macros PUSH_TO_MEM / POP_FROM_MEM / NEED_MORE_DATA','include/ta_defs.h')],
 [dict(name='mem_size, mem_index, memory',meaning='lookback, bars fed, ring of past bars',where='struct TA_X_State in include/ta_func.h')],
 ['return code and outputs of every TA_X_State call']))
L.append(P('C02','Saving and reloading a stream is invisible',
 'If at any point of its life a stream is saved to a file and loaded into another handle, the loaded stream behaves from then on exactly as the original would: same return codes, same outputs, for every continuation, and saving it again works as well. Saving does not disturb the stream that is saved, and loading consumes exactly the bytes that saving wrote, so several streams can follow each other in one file.',
 ['inputs','histories','configurations'],'every function and parameter set, every save point (before the first bar, inside the warm-up, after many ring wraps), every continuation, repeated save/load cycles, several states in one file',
 'The existing save/load branch of the tests is never executed with a comparison afterwards; a dropped or reordered field shows only for the stream whose later output depends on it.',
 [F+'ta_*.c',C+'include/ta_func.h'],
 [m('TA_X_StateSave / TA_X_StateLoad','sections 13 and 14 of each ta_func/ta_*.c'),m('nested states saved by their own function','composite streams, e.g. ta_MACD.c, ta_STOCH.c, ta_BBANDS.c')],
 obs=['outputs of the loaded and of the original stream, file position after save and load']))
L.append(P('C03','Feeding in chunks equals feeding bar by bar',
 'However a series is cut into consecutive chunks, feeding the chunks through the batch-feed call of a stream leaves the same results as feeding the bars one at a time: the chunk call covers every bar of its range in order, marks the bars that still need data as NaN (real outputs) or the largest integer (integer outputs), gives the bar-by-bar values elsewhere, reports the start and count of the range, and returns the status of its last bar. Single-bar and chunk feeding can be mixed freely.',
 ['inputs','histories'],'every function, parameter set and series, every partition into chunks (length 1 to n, at any offset in the arrays), every mix with single-bar feeding',
 'The tests feed one whole series at most once per stream; boundaries between chunks and the warm-up markers are never compared.',
 [F+'ta_*.c'],[m('TA_X_BatchState','section 10 of each ta_func/ta_*.c')],
 obs=['return code, begin index, element count and arrays of every TA_X_BatchState call']))
L.append(P('C04','Streams are independent of each other and of batch calls',
 'Any number of streams, of the same or of different functions and parameters, can be open at the same time, interleaved with each other, with batch calls and with the creation, saving, loading and freeing of other streams, in any order: each stream yields the outputs it would yield alone. Freeing or re-creating one stream never changes another.',
 ['histories','schedules'],'every interleaving of operations on several live streams and batch calls',
 'Tests only ever run one stream at a time, so state shared by accident (a static buffer, an aliased nested state or ring) cannot show.',
 [F+'ta_*.c',C+'src/ta_func/ta_utility.h'],[m('heap-allocated state per handle','TA_X_StateInit'),m('nested states owned by one parent','composite TA_X_StateInit / StateFree')],
 obs=['outputs of every stream in an interleaved history']))
L.append(P('C05','Stream life cycle and error contract',
 'Every misuse or fault of a stream is answered with the documented error and nothing else: a null handle or null handle pointer, an output pointer missing when a value is due, loading into a handle that is in use, or a file that is truncated at any byte or cannot be written gives an error code (bad parameter or I/O failure) instead of a crash. A free resets the handle to null and can be repeated; a null stream saves and loads as a null stream; and after any of these errors unrelated streams keep working.',
 ['fault_sequences','histories'],'every function, every sequence of create/feed/save/load/free calls with null, used and freed handles, every truncation point of a saved state, every failing write',
 'No test makes any of these calls fail; truncation at each byte and write errors are never injected.',
 [F+'ta_*.c'],[m('NULL checks and retcodes','sections 6, 8, 10, 12, 13, 14 of each ta_func/ta_*.c'),m('fread/fwrite result checks','TA_X_StateLoad / TA_X_StateSave')],
 obs=['return codes, handle value, survival of the process']))
L.append(P('C06','Batch calls fill exactly the announced output range',
 'A valid batch call over start..end reports begin = max(start, lookback) and count = end - begin + 1, or begin 0 and count 0 when nothing can be computed, where lookback is what the function\'s own lookback call answers for the same parameters and settings. It writes every one of those count elements of each output and nothing else: no other element of the outputs and no element of the inputs changes.',
 ['inputs','configurations'],'every function and valid parameter set, every 0 <= start <= end, arrays of any length, every unstable period, compatibility and candle setting',
 'The tests check a handful of ranges per function on one series; off-by-one effects for small ranges, empty results, and writes just outside of the range go unseen.',
 [F+'ta_*.c'],[m('TA_X_Lookback and the startIdx adjustment','each ta_func/ta_*.c'),m('temporary buffers of composite functions','ta_MACD.c, ta_STOCH.c, ta_BBANDS.c, ta_DEMA.c, ta_T3.c ...')],
 obs=['outBegIdx, outNBElement, guard zones around outputs, copies of inputs']))
L.append(P('C07','A batch result depends only on its range and its lookback',
 'For a start at or after the lookback, the outputs of a batch call over start..end are a function of the bars start - lookback .. end alone: neither bars after end nor bars before start - lookback matter, and cutting those earlier bars off and shifting the indices gives the same values (outputs that are bar indices shift along). In particular no output looks into the future: extending the series or changing later bars never changes an earlier output.',
 ['inputs','configurations'],'every function, parameter set and series, every start >= lookback and end (default compatibility setting)',
 'The tests compare ranges of one fixed series against each other for a few functions; dependence on data outside of the range or on the absolute position is not sampled.',
 [F+'ta_*.c'],[m('today = startIdx - lookbackTotal initialisation','each ta_func/ta_*.c')],obs=['outputs of batch calls on cut, extended and perturbed series']))
L.append(P('C08','Parameters are validated the same way everywhere',
 'Each optional parameter has one documented range and default, and batch (double and single precision), lookback and stream creation agree on it: a value outside gives "bad parameter" (lookback -1, no stream, no output), a value inside including both bounds is accepted, and the "default" marker behaves exactly as the documented default value. A negative start or an end before the start gives its own out-of-range code, and a null input or output array gives "bad parameter".',
 ['inputs'],'every function and optional parameter, values at, just inside and outside each bound, the default marker, extreme integers and reals, every null pointer position, every bad index pair',
 'Tests use valid parameters nearly exclusively; boundary values of about 140 parameters times five entry points are not tried.',
 [F+'ta_*.c',C+'src/ta_abstract/tables/*.c'],[m('range checks','sections 2, 4, 6 of each ta_func/ta_*.c')],obs=['return codes of TA_X, TA_S_X, TA_X_Lookback, TA_X_StateInit']))
L.append(P('C09','The abstract interface is the direct interface',
 'Calling a function by name through the abstract interface (parameter holder, batch call, lookback, streams with save/load) gives exactly the result of the direct call with the same inputs and parameters, with documented defaults for parameters that were not set. A holder can only be called once every required input and output has been set, reports which kind is missing, rejects wrong indices and wrong types without changing what was set before, can be reused with new parameters, and holders are independent of each other.',
 ['inputs','histories'],'every function, every sequence and order of set/get/call operations on one or several holders, right and wrong indices and types',
 'The abstract test calls each function once with fixed data and does not compare with the direct call.',
 [C+'src/ta_abstract/ta_abstract.c',C+'src/ta_abstract/frames/ta_frame.c',C+'src/ta_abstract/tables/*.c'],
 [m('TA_ParamHolderPriv with in/out bitmaps','ta_abstract.c'),m('TA_X_FramePP / FrameState','frames/ta_frame.c')],
 [dict(name='inBitmap, outBitmap',meaning='parameters still missing',where='TA_ParamHolderPriv, src/ta_abstract/ta_frame_priv.h')],['return codes and outputs of TA_CallFunc and friends']))
L.append(P('C10','Outputs may overwrite inputs',
 'A batch call whose output array is the same memory as one of its real input arrays gives the same outputs as with separate arrays, for every function, every choice of output and input, and every range, including ranges that do not start at 0.',
 ['inputs','configurations'],'every function, every (output, input) pair that can share memory, every parameter set and range',
 'In-place calls are tested for a few functions, one input and a few ranges only.',
 [F+'ta_*.c'],[m('read-before-write order and temporary buffers','each ta_func/ta_*.c')],obs=['outputs of in-place calls']))
L.append(P('C11','Single-precision inputs give the double-precision result',
 'The single-precision variant of each function, given a float series, returns the same status, begin, count and (up to the rounding of single-precision inputs) the same outputs as the double-precision variant given the same numbers, for every parameter set, range and setting.',
 ['inputs','configurations'],'every function, valid parameter set, float-valued series, range, unstable period, compatibility and candle setting',
 'The float variants are run by the test-suite only on one series with the wide tolerances of its comparison.',
 [F+'ta_*.c'],[m('TA_S_X','section 15 of each ta_func/ta_*.c')],obs=['outputs of TA_S_X and TA_X']))
L.append(P('C12','Unstable periods skip exactly the configured bars',
 'Setting the unstable period of a function id to k makes the lookback of the functions governed by that id grow by the documented amount (k per recursive stage) and drops the corresponding leading outputs without otherwise changing the outputs of the full-series call at the remaining bars; functions not governed by the id are unaffected. The "all" id sets every one, unknown ids are rejected and change nothing, reading gives back what was last set, and streams created after the change follow it.',
 ['configurations','histories','inputs'],'every unstable id, every k, every history of set calls, every function and parameter set',
 'The tests set a few unstable periods on a few functions and look at the convergence of one series.',
 [C+'src/ta_func/ta_utility.c',F+'ta_*.c'],[m('TA_SetUnstablePeriod / TA_GLOBALS_UNSTABLE_PERIOD','ta_utility.c, ta_utility.h')],
 [dict(name='TA_Globals.unstablePeriod[]',meaning='unstable period per id',where='src/ta_common/ta_global.h')],['TA_GetUnstablePeriod, lookbacks, begin and values of batch calls']))
L.append(P('C13','Library settings are a well-behaved store',
 'Initialisation, shutdown, compatibility, unstable periods and candle settings behave as a store: a read gives the value last written, a write changes only its own entry, "all" writes all entries, restore gives back the documented defaults, invalid ids are rejected and change nothing, initialisation resets everything and a shutdown without initialisation is reported. Candle settings written are the ones that pattern recognition uses from then on.',
 ['histories','configurations'],'every sequence of init/shutdown/set/get/restore calls with valid and invalid ids',
 'The tests set and reset each of these once.',
 [C+'src/ta_common/ta_global.c',C+'src/ta_func/ta_utility.c'],[m('TA_SetCandleSettings / TA_RestoreCandleDefaultSettings','ta_common/ta_global.c'),m('TA_SetCompatibility','ta_func/ta_utility.c')],
 [dict(name='TA_Globals',meaning='library settings',where='src/ta_common/ta_global.c')],['return codes and getters; outputs of functions that depend on the settings']))
L.append(P('C14','Candlestick patterns are recognised by their definition',
 'Each of the 61 candlestick functions signals at a bar exactly when the bars ending there satisfy the documented definition of the pattern under the current candle settings, with the documented sign and strength (100, 200, 80), and 0 everywhere else; the averages used for "long", "short", "doji", "near", "far" and "equal" cover exactly the configured number of bars before the candle they qualify.',
 ['inputs','configurations'],'every series of valid candles, every candle setting (range type, averaging period, factor), every penetration value',
 'The tests check that a pattern function runs; most patterns never occur in the test series, and their conditions are not exercised.',
 [F+'ta_CDL*.c',C+'src/ta_func/ta_utility.h'],[m('TA_CANDLERANGE / TA_CANDLEAVERAGE / TA_REALBODY ... macros','ta_func/ta_utility.h'),m('pattern conditions','ta_func/ta_CDL*.c')],obs=['integer outputs of the batch calls']))
L.append(P('C15','Indicator values follow their definitions',
 'For every other function the outputs equal the published definition of the indicator (moving averages, oscillators, volatility, regression, statistics, math and price transforms, volume and cycle indicators), computed over the stated window with the stated smoothing, seeding and treatment of zero denominators, for every parameter value and series; in particular min/max and index functions agree with each other and composite indicators equal the composition of their parts.',
 ['inputs','configurations'],'every function other than candlesticks and cycle (Hilbert) details, every valid parameter set and series of finite values',
 'Tests compare a few output values of one series with stored numbers; they do not see other periods, MA types, tied values, zero ranges or degenerate series.',
 [F+'ta_*.c'],[m('batch algorithms','each ta_func/ta_*.c')],obs=['outputs of the batch calls']))
L.append(P('C16','Introspection tells the truth',
 'What the library says about its functions (names, groups, flags, inputs, outputs, optional parameters with ranges, defaults and enumerations, by handle, by iteration and in tables) is complete and consistent: every function is listed exactly once in its group and reachable by name, and the announced inputs, outputs, parameters and lookback are those of the actual call. Unknown names and indices are rejected.',
 ['programs','inputs'],'every function, group, input, output and parameter index, valid and invalid names',
 'The abstract test only counts functions and calls them.',
 [C+'src/ta_abstract/tables/*.c',C+'src/ta_abstract/ta_group_idx.c',C+'src/ta_abstract/ta_def_ui.c',C+'src/ta_abstract/ta_abstract.c'],[m('TA_DEF tables','src/ta_abstract/tables/table_?.c'),m('TA_GroupTableAlloc, TA_FuncTableAlloc, TA_ForEachFunc, TA_GetFuncInfo','ta_abstract.c')],obs=['results of the introspection calls']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
