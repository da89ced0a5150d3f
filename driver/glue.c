/* generated by tools/gen_glue.py from the public header; committed */
#include "glue.h"
static TA_RetCode b_ACCBANDS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ACCBANDS(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode s_ACCBANDS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ACCBANDS(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static int l_ACCBANDS(const double*o){return TA_ACCBANDS_Lookback((int)o[0]);}
static TA_RetCode i_ACCBANDS(void**st,const double*o){return TA_ACCBANDS_StateInit((struct TA_ACCBANDS_State**)st, (int)o[0]);}
static TA_RetCode t_ACCBANDS(void*st,const double*v,void*const*out){return TA_ACCBANDS_State((struct TA_ACCBANDS_State*)st, v[0], v[1], v[2], (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode c_ACCBANDS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ACCBANDS_BatchState((struct TA_ACCBANDS_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode f_ACCBANDS(void**st){return TA_ACCBANDS_StateFree((struct TA_ACCBANDS_State**)st);}
static TA_RetCode w_ACCBANDS(void*st,FILE*f){return TA_ACCBANDS_StateSave((struct TA_ACCBANDS_State*)st,f);}
static TA_RetCode r_ACCBANDS(void**st,FILE*f){return TA_ACCBANDS_StateLoad((struct TA_ACCBANDS_State**)st,f);}
static TA_RetCode b_ACOS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ACOS(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ACOS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ACOS(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_ACOS(const double*o){return TA_ACOS_Lookback();}
static TA_RetCode i_ACOS(void**st,const double*o){return TA_ACOS_StateInit((struct TA_ACOS_State**)st);}
static TA_RetCode t_ACOS(void*st,const double*v,void*const*out){return TA_ACOS_State((struct TA_ACOS_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_ACOS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ACOS_BatchState((struct TA_ACOS_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_ACOS(void**st){return TA_ACOS_StateFree((struct TA_ACOS_State**)st);}
static TA_RetCode w_ACOS(void*st,FILE*f){return TA_ACOS_StateSave((struct TA_ACOS_State*)st,f);}
static TA_RetCode r_ACOS(void**st,FILE*f){return TA_ACOS_StateLoad((struct TA_ACOS_State**)st,f);}
static TA_RetCode b_AD(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_AD(s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static TA_RetCode s_AD(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_AD(s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static int l_AD(const double*o){return TA_AD_Lookback();}
static TA_RetCode i_AD(void**st,const double*o){return TA_AD_StateInit((struct TA_AD_State**)st);}
static TA_RetCode t_AD(void*st,const double*v,void*const*out){return TA_AD_State((struct TA_AD_State*)st, v[0], v[1], v[2], v[3], (double*)out[0]);}
static TA_RetCode c_AD(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_AD_BatchState((struct TA_AD_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static TA_RetCode f_AD(void**st){return TA_AD_StateFree((struct TA_AD_State**)st);}
static TA_RetCode w_AD(void*st,FILE*f){return TA_AD_StateSave((struct TA_AD_State*)st,f);}
static TA_RetCode r_AD(void**st,FILE*f){return TA_AD_StateLoad((struct TA_AD_State**)st,f);}
static TA_RetCode b_ADD(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ADD(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_ADD(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ADD(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_ADD(const double*o){return TA_ADD_Lookback();}
static TA_RetCode i_ADD(void**st,const double*o){return TA_ADD_StateInit((struct TA_ADD_State**)st);}
static TA_RetCode t_ADD(void*st,const double*v,void*const*out){return TA_ADD_State((struct TA_ADD_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_ADD(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ADD_BatchState((struct TA_ADD_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_ADD(void**st){return TA_ADD_StateFree((struct TA_ADD_State**)st);}
static TA_RetCode w_ADD(void*st,FILE*f){return TA_ADD_StateSave((struct TA_ADD_State*)st,f);}
static TA_RetCode r_ADD(void**st,FILE*f){return TA_ADD_StateLoad((struct TA_ADD_State**)st,f);}
static TA_RetCode b_ADOSC(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ADOSC(s, e, in[0], in[1], in[2], in[3], (int)o[0], (int)o[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_ADOSC(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ADOSC(s, e, in[0], in[1], in[2], in[3], (int)o[0], (int)o[1], bg, nb, (double*)out[0]);}
static int l_ADOSC(const double*o){return TA_ADOSC_Lookback((int)o[0], (int)o[1]);}
static TA_RetCode i_ADOSC(void**st,const double*o){return TA_ADOSC_StateInit((struct TA_ADOSC_State**)st, (int)o[0], (int)o[1]);}
static TA_RetCode t_ADOSC(void*st,const double*v,void*const*out){return TA_ADOSC_State((struct TA_ADOSC_State*)st, v[0], v[1], v[2], v[3], (double*)out[0]);}
static TA_RetCode c_ADOSC(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ADOSC_BatchState((struct TA_ADOSC_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static TA_RetCode f_ADOSC(void**st){return TA_ADOSC_StateFree((struct TA_ADOSC_State**)st);}
static TA_RetCode w_ADOSC(void*st,FILE*f){return TA_ADOSC_StateSave((struct TA_ADOSC_State*)st,f);}
static TA_RetCode r_ADOSC(void**st,FILE*f){return TA_ADOSC_StateLoad((struct TA_ADOSC_State**)st,f);}
static TA_RetCode b_ADX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ADX(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ADX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ADX(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_ADX(const double*o){return TA_ADX_Lookback((int)o[0]);}
static TA_RetCode i_ADX(void**st,const double*o){return TA_ADX_StateInit((struct TA_ADX_State**)st, (int)o[0]);}
static TA_RetCode t_ADX(void*st,const double*v,void*const*out){return TA_ADX_State((struct TA_ADX_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_ADX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ADX_BatchState((struct TA_ADX_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_ADX(void**st){return TA_ADX_StateFree((struct TA_ADX_State**)st);}
static TA_RetCode w_ADX(void*st,FILE*f){return TA_ADX_StateSave((struct TA_ADX_State*)st,f);}
static TA_RetCode r_ADX(void**st,FILE*f){return TA_ADX_StateLoad((struct TA_ADX_State**)st,f);}
static TA_RetCode b_ADXR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ADXR(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ADXR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ADXR(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_ADXR(const double*o){return TA_ADXR_Lookback((int)o[0]);}
static TA_RetCode i_ADXR(void**st,const double*o){return TA_ADXR_StateInit((struct TA_ADXR_State**)st, (int)o[0]);}
static TA_RetCode t_ADXR(void*st,const double*v,void*const*out){return TA_ADXR_State((struct TA_ADXR_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_ADXR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ADXR_BatchState((struct TA_ADXR_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_ADXR(void**st){return TA_ADXR_StateFree((struct TA_ADXR_State**)st);}
static TA_RetCode w_ADXR(void*st,FILE*f){return TA_ADXR_StateSave((struct TA_ADXR_State*)st,f);}
static TA_RetCode r_ADXR(void**st,FILE*f){return TA_ADXR_StateLoad((struct TA_ADXR_State**)st,f);}
static TA_RetCode b_APO(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_APO(s, e, in[0], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], bg, nb, (double*)out[0]);}
static TA_RetCode s_APO(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_APO(s, e, in[0], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], bg, nb, (double*)out[0]);}
static int l_APO(const double*o){return TA_APO_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode i_APO(void**st,const double*o){return TA_APO_StateInit((struct TA_APO_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode t_APO(void*st,const double*v,void*const*out){return TA_APO_State((struct TA_APO_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_APO(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_APO_BatchState((struct TA_APO_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_APO(void**st){return TA_APO_StateFree((struct TA_APO_State**)st);}
static TA_RetCode w_APO(void*st,FILE*f){return TA_APO_StateSave((struct TA_APO_State*)st,f);}
static TA_RetCode r_APO(void**st,FILE*f){return TA_APO_StateLoad((struct TA_APO_State**)st,f);}
static TA_RetCode b_AROON(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_AROON(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode s_AROON(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_AROON(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0], (double*)out[1]);}
static int l_AROON(const double*o){return TA_AROON_Lookback((int)o[0]);}
static TA_RetCode i_AROON(void**st,const double*o){return TA_AROON_StateInit((struct TA_AROON_State**)st, (int)o[0]);}
static TA_RetCode t_AROON(void*st,const double*v,void*const*out){return TA_AROON_State((struct TA_AROON_State*)st, v[0], v[1], (double*)out[0], (double*)out[1]);}
static TA_RetCode c_AROON(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_AROON_BatchState((struct TA_AROON_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode f_AROON(void**st){return TA_AROON_StateFree((struct TA_AROON_State**)st);}
static TA_RetCode w_AROON(void*st,FILE*f){return TA_AROON_StateSave((struct TA_AROON_State*)st,f);}
static TA_RetCode r_AROON(void**st,FILE*f){return TA_AROON_StateLoad((struct TA_AROON_State**)st,f);}
static TA_RetCode b_AROONOSC(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_AROONOSC(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_AROONOSC(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_AROONOSC(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static int l_AROONOSC(const double*o){return TA_AROONOSC_Lookback((int)o[0]);}
static TA_RetCode i_AROONOSC(void**st,const double*o){return TA_AROONOSC_StateInit((struct TA_AROONOSC_State**)st, (int)o[0]);}
static TA_RetCode t_AROONOSC(void*st,const double*v,void*const*out){return TA_AROONOSC_State((struct TA_AROONOSC_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_AROONOSC(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_AROONOSC_BatchState((struct TA_AROONOSC_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_AROONOSC(void**st){return TA_AROONOSC_StateFree((struct TA_AROONOSC_State**)st);}
static TA_RetCode w_AROONOSC(void*st,FILE*f){return TA_AROONOSC_StateSave((struct TA_AROONOSC_State*)st,f);}
static TA_RetCode r_AROONOSC(void**st,FILE*f){return TA_AROONOSC_StateLoad((struct TA_AROONOSC_State**)st,f);}
static TA_RetCode b_ASIN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ASIN(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ASIN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ASIN(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_ASIN(const double*o){return TA_ASIN_Lookback();}
static TA_RetCode i_ASIN(void**st,const double*o){return TA_ASIN_StateInit((struct TA_ASIN_State**)st);}
static TA_RetCode t_ASIN(void*st,const double*v,void*const*out){return TA_ASIN_State((struct TA_ASIN_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_ASIN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ASIN_BatchState((struct TA_ASIN_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_ASIN(void**st){return TA_ASIN_StateFree((struct TA_ASIN_State**)st);}
static TA_RetCode w_ASIN(void*st,FILE*f){return TA_ASIN_StateSave((struct TA_ASIN_State*)st,f);}
static TA_RetCode r_ASIN(void**st,FILE*f){return TA_ASIN_StateLoad((struct TA_ASIN_State**)st,f);}
static TA_RetCode b_ATAN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ATAN(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ATAN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ATAN(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_ATAN(const double*o){return TA_ATAN_Lookback();}
static TA_RetCode i_ATAN(void**st,const double*o){return TA_ATAN_StateInit((struct TA_ATAN_State**)st);}
static TA_RetCode t_ATAN(void*st,const double*v,void*const*out){return TA_ATAN_State((struct TA_ATAN_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_ATAN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ATAN_BatchState((struct TA_ATAN_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_ATAN(void**st){return TA_ATAN_StateFree((struct TA_ATAN_State**)st);}
static TA_RetCode w_ATAN(void*st,FILE*f){return TA_ATAN_StateSave((struct TA_ATAN_State*)st,f);}
static TA_RetCode r_ATAN(void**st,FILE*f){return TA_ATAN_StateLoad((struct TA_ATAN_State**)st,f);}
static TA_RetCode b_ATR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ATR(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ATR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ATR(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_ATR(const double*o){return TA_ATR_Lookback((int)o[0]);}
static TA_RetCode i_ATR(void**st,const double*o){return TA_ATR_StateInit((struct TA_ATR_State**)st, (int)o[0]);}
static TA_RetCode t_ATR(void*st,const double*v,void*const*out){return TA_ATR_State((struct TA_ATR_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_ATR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ATR_BatchState((struct TA_ATR_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_ATR(void**st){return TA_ATR_StateFree((struct TA_ATR_State**)st);}
static TA_RetCode w_ATR(void*st,FILE*f){return TA_ATR_StateSave((struct TA_ATR_State*)st,f);}
static TA_RetCode r_ATR(void**st,FILE*f){return TA_ATR_StateLoad((struct TA_ATR_State**)st,f);}
static TA_RetCode b_AVGPRICE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_AVGPRICE(s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static TA_RetCode s_AVGPRICE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_AVGPRICE(s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static int l_AVGPRICE(const double*o){return TA_AVGPRICE_Lookback();}
static TA_RetCode i_AVGPRICE(void**st,const double*o){return TA_AVGPRICE_StateInit((struct TA_AVGPRICE_State**)st);}
static TA_RetCode t_AVGPRICE(void*st,const double*v,void*const*out){return TA_AVGPRICE_State((struct TA_AVGPRICE_State*)st, v[0], v[1], v[2], v[3], (double*)out[0]);}
static TA_RetCode c_AVGPRICE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_AVGPRICE_BatchState((struct TA_AVGPRICE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static TA_RetCode f_AVGPRICE(void**st){return TA_AVGPRICE_StateFree((struct TA_AVGPRICE_State**)st);}
static TA_RetCode w_AVGPRICE(void*st,FILE*f){return TA_AVGPRICE_StateSave((struct TA_AVGPRICE_State*)st,f);}
static TA_RetCode r_AVGPRICE(void**st,FILE*f){return TA_AVGPRICE_StateLoad((struct TA_AVGPRICE_State**)st,f);}
static TA_RetCode b_AVGDEV(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_AVGDEV(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_AVGDEV(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_AVGDEV(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_AVGDEV(const double*o){return TA_AVGDEV_Lookback((int)o[0]);}
static TA_RetCode i_AVGDEV(void**st,const double*o){return TA_AVGDEV_StateInit((struct TA_AVGDEV_State**)st, (int)o[0]);}
static TA_RetCode t_AVGDEV(void*st,const double*v,void*const*out){return TA_AVGDEV_State((struct TA_AVGDEV_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_AVGDEV(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_AVGDEV_BatchState((struct TA_AVGDEV_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_AVGDEV(void**st){return TA_AVGDEV_StateFree((struct TA_AVGDEV_State**)st);}
static TA_RetCode w_AVGDEV(void*st,FILE*f){return TA_AVGDEV_StateSave((struct TA_AVGDEV_State*)st,f);}
static TA_RetCode r_AVGDEV(void**st,FILE*f){return TA_AVGDEV_StateLoad((struct TA_AVGDEV_State**)st,f);}
static TA_RetCode b_BBANDS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_BBANDS(s, e, in[0], (int)o[0], o[1], o[2], (TA_MAType)(int)o[3], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode s_BBANDS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_BBANDS(s, e, in[0], (int)o[0], o[1], o[2], (TA_MAType)(int)o[3], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static int l_BBANDS(const double*o){return TA_BBANDS_Lookback((int)o[0], o[1], o[2], (TA_MAType)(int)o[3]);}
static TA_RetCode i_BBANDS(void**st,const double*o){return TA_BBANDS_StateInit((struct TA_BBANDS_State**)st, (int)o[0], o[1], o[2], (TA_MAType)(int)o[3]);}
static TA_RetCode t_BBANDS(void*st,const double*v,void*const*out){return TA_BBANDS_State((struct TA_BBANDS_State*)st, v[0], (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode c_BBANDS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_BBANDS_BatchState((struct TA_BBANDS_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode f_BBANDS(void**st){return TA_BBANDS_StateFree((struct TA_BBANDS_State**)st);}
static TA_RetCode w_BBANDS(void*st,FILE*f){return TA_BBANDS_StateSave((struct TA_BBANDS_State*)st,f);}
static TA_RetCode r_BBANDS(void**st,FILE*f){return TA_BBANDS_StateLoad((struct TA_BBANDS_State**)st,f);}
static TA_RetCode b_BETA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_BETA(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_BETA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_BETA(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static int l_BETA(const double*o){return TA_BETA_Lookback((int)o[0]);}
static TA_RetCode i_BETA(void**st,const double*o){return TA_BETA_StateInit((struct TA_BETA_State**)st, (int)o[0]);}
static TA_RetCode t_BETA(void*st,const double*v,void*const*out){return TA_BETA_State((struct TA_BETA_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_BETA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_BETA_BatchState((struct TA_BETA_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_BETA(void**st){return TA_BETA_StateFree((struct TA_BETA_State**)st);}
static TA_RetCode w_BETA(void*st,FILE*f){return TA_BETA_StateSave((struct TA_BETA_State*)st,f);}
static TA_RetCode r_BETA(void**st,FILE*f){return TA_BETA_StateLoad((struct TA_BETA_State**)st,f);}
static TA_RetCode b_BOP(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_BOP(s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static TA_RetCode s_BOP(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_BOP(s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static int l_BOP(const double*o){return TA_BOP_Lookback();}
static TA_RetCode i_BOP(void**st,const double*o){return TA_BOP_StateInit((struct TA_BOP_State**)st);}
static TA_RetCode t_BOP(void*st,const double*v,void*const*out){return TA_BOP_State((struct TA_BOP_State*)st, v[0], v[1], v[2], v[3], (double*)out[0]);}
static TA_RetCode c_BOP(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_BOP_BatchState((struct TA_BOP_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static TA_RetCode f_BOP(void**st){return TA_BOP_StateFree((struct TA_BOP_State**)st);}
static TA_RetCode w_BOP(void*st,FILE*f){return TA_BOP_StateSave((struct TA_BOP_State*)st,f);}
static TA_RetCode r_BOP(void**st,FILE*f){return TA_BOP_StateLoad((struct TA_BOP_State**)st,f);}
static TA_RetCode b_CCI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CCI(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_CCI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CCI(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_CCI(const double*o){return TA_CCI_Lookback((int)o[0]);}
static TA_RetCode i_CCI(void**st,const double*o){return TA_CCI_StateInit((struct TA_CCI_State**)st, (int)o[0]);}
static TA_RetCode t_CCI(void*st,const double*v,void*const*out){return TA_CCI_State((struct TA_CCI_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_CCI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CCI_BatchState((struct TA_CCI_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_CCI(void**st){return TA_CCI_StateFree((struct TA_CCI_State**)st);}
static TA_RetCode w_CCI(void*st,FILE*f){return TA_CCI_StateSave((struct TA_CCI_State*)st,f);}
static TA_RetCode r_CCI(void**st,FILE*f){return TA_CCI_StateLoad((struct TA_CCI_State**)st,f);}
static TA_RetCode b_CDL2CROWS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDL2CROWS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDL2CROWS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDL2CROWS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDL2CROWS(const double*o){return TA_CDL2CROWS_Lookback();}
static TA_RetCode i_CDL2CROWS(void**st,const double*o){return TA_CDL2CROWS_StateInit((struct TA_CDL2CROWS_State**)st);}
static TA_RetCode t_CDL2CROWS(void*st,const double*v,void*const*out){return TA_CDL2CROWS_State((struct TA_CDL2CROWS_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDL2CROWS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDL2CROWS_BatchState((struct TA_CDL2CROWS_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDL2CROWS(void**st){return TA_CDL2CROWS_StateFree((struct TA_CDL2CROWS_State**)st);}
static TA_RetCode w_CDL2CROWS(void*st,FILE*f){return TA_CDL2CROWS_StateSave((struct TA_CDL2CROWS_State*)st,f);}
static TA_RetCode r_CDL2CROWS(void**st,FILE*f){return TA_CDL2CROWS_StateLoad((struct TA_CDL2CROWS_State**)st,f);}
static TA_RetCode b_CDL3BLACKCROWS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDL3BLACKCROWS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDL3BLACKCROWS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDL3BLACKCROWS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDL3BLACKCROWS(const double*o){return TA_CDL3BLACKCROWS_Lookback();}
static TA_RetCode i_CDL3BLACKCROWS(void**st,const double*o){return TA_CDL3BLACKCROWS_StateInit((struct TA_CDL3BLACKCROWS_State**)st);}
static TA_RetCode t_CDL3BLACKCROWS(void*st,const double*v,void*const*out){return TA_CDL3BLACKCROWS_State((struct TA_CDL3BLACKCROWS_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDL3BLACKCROWS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDL3BLACKCROWS_BatchState((struct TA_CDL3BLACKCROWS_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDL3BLACKCROWS(void**st){return TA_CDL3BLACKCROWS_StateFree((struct TA_CDL3BLACKCROWS_State**)st);}
static TA_RetCode w_CDL3BLACKCROWS(void*st,FILE*f){return TA_CDL3BLACKCROWS_StateSave((struct TA_CDL3BLACKCROWS_State*)st,f);}
static TA_RetCode r_CDL3BLACKCROWS(void**st,FILE*f){return TA_CDL3BLACKCROWS_StateLoad((struct TA_CDL3BLACKCROWS_State**)st,f);}
static TA_RetCode b_CDL3INSIDE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDL3INSIDE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDL3INSIDE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDL3INSIDE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDL3INSIDE(const double*o){return TA_CDL3INSIDE_Lookback();}
static TA_RetCode i_CDL3INSIDE(void**st,const double*o){return TA_CDL3INSIDE_StateInit((struct TA_CDL3INSIDE_State**)st);}
static TA_RetCode t_CDL3INSIDE(void*st,const double*v,void*const*out){return TA_CDL3INSIDE_State((struct TA_CDL3INSIDE_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDL3INSIDE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDL3INSIDE_BatchState((struct TA_CDL3INSIDE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDL3INSIDE(void**st){return TA_CDL3INSIDE_StateFree((struct TA_CDL3INSIDE_State**)st);}
static TA_RetCode w_CDL3INSIDE(void*st,FILE*f){return TA_CDL3INSIDE_StateSave((struct TA_CDL3INSIDE_State*)st,f);}
static TA_RetCode r_CDL3INSIDE(void**st,FILE*f){return TA_CDL3INSIDE_StateLoad((struct TA_CDL3INSIDE_State**)st,f);}
static TA_RetCode b_CDL3LINESTRIKE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDL3LINESTRIKE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDL3LINESTRIKE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDL3LINESTRIKE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDL3LINESTRIKE(const double*o){return TA_CDL3LINESTRIKE_Lookback();}
static TA_RetCode i_CDL3LINESTRIKE(void**st,const double*o){return TA_CDL3LINESTRIKE_StateInit((struct TA_CDL3LINESTRIKE_State**)st);}
static TA_RetCode t_CDL3LINESTRIKE(void*st,const double*v,void*const*out){return TA_CDL3LINESTRIKE_State((struct TA_CDL3LINESTRIKE_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDL3LINESTRIKE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDL3LINESTRIKE_BatchState((struct TA_CDL3LINESTRIKE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDL3LINESTRIKE(void**st){return TA_CDL3LINESTRIKE_StateFree((struct TA_CDL3LINESTRIKE_State**)st);}
static TA_RetCode w_CDL3LINESTRIKE(void*st,FILE*f){return TA_CDL3LINESTRIKE_StateSave((struct TA_CDL3LINESTRIKE_State*)st,f);}
static TA_RetCode r_CDL3LINESTRIKE(void**st,FILE*f){return TA_CDL3LINESTRIKE_StateLoad((struct TA_CDL3LINESTRIKE_State**)st,f);}
static TA_RetCode b_CDL3OUTSIDE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDL3OUTSIDE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDL3OUTSIDE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDL3OUTSIDE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDL3OUTSIDE(const double*o){return TA_CDL3OUTSIDE_Lookback();}
static TA_RetCode i_CDL3OUTSIDE(void**st,const double*o){return TA_CDL3OUTSIDE_StateInit((struct TA_CDL3OUTSIDE_State**)st);}
static TA_RetCode t_CDL3OUTSIDE(void*st,const double*v,void*const*out){return TA_CDL3OUTSIDE_State((struct TA_CDL3OUTSIDE_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDL3OUTSIDE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDL3OUTSIDE_BatchState((struct TA_CDL3OUTSIDE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDL3OUTSIDE(void**st){return TA_CDL3OUTSIDE_StateFree((struct TA_CDL3OUTSIDE_State**)st);}
static TA_RetCode w_CDL3OUTSIDE(void*st,FILE*f){return TA_CDL3OUTSIDE_StateSave((struct TA_CDL3OUTSIDE_State*)st,f);}
static TA_RetCode r_CDL3OUTSIDE(void**st,FILE*f){return TA_CDL3OUTSIDE_StateLoad((struct TA_CDL3OUTSIDE_State**)st,f);}
static TA_RetCode b_CDL3STARSINSOUTH(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDL3STARSINSOUTH(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDL3STARSINSOUTH(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDL3STARSINSOUTH(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDL3STARSINSOUTH(const double*o){return TA_CDL3STARSINSOUTH_Lookback();}
static TA_RetCode i_CDL3STARSINSOUTH(void**st,const double*o){return TA_CDL3STARSINSOUTH_StateInit((struct TA_CDL3STARSINSOUTH_State**)st);}
static TA_RetCode t_CDL3STARSINSOUTH(void*st,const double*v,void*const*out){return TA_CDL3STARSINSOUTH_State((struct TA_CDL3STARSINSOUTH_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDL3STARSINSOUTH(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDL3STARSINSOUTH_BatchState((struct TA_CDL3STARSINSOUTH_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDL3STARSINSOUTH(void**st){return TA_CDL3STARSINSOUTH_StateFree((struct TA_CDL3STARSINSOUTH_State**)st);}
static TA_RetCode w_CDL3STARSINSOUTH(void*st,FILE*f){return TA_CDL3STARSINSOUTH_StateSave((struct TA_CDL3STARSINSOUTH_State*)st,f);}
static TA_RetCode r_CDL3STARSINSOUTH(void**st,FILE*f){return TA_CDL3STARSINSOUTH_StateLoad((struct TA_CDL3STARSINSOUTH_State**)st,f);}
static TA_RetCode b_CDL3WHITESOLDIERS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDL3WHITESOLDIERS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDL3WHITESOLDIERS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDL3WHITESOLDIERS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDL3WHITESOLDIERS(const double*o){return TA_CDL3WHITESOLDIERS_Lookback();}
static TA_RetCode i_CDL3WHITESOLDIERS(void**st,const double*o){return TA_CDL3WHITESOLDIERS_StateInit((struct TA_CDL3WHITESOLDIERS_State**)st);}
static TA_RetCode t_CDL3WHITESOLDIERS(void*st,const double*v,void*const*out){return TA_CDL3WHITESOLDIERS_State((struct TA_CDL3WHITESOLDIERS_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDL3WHITESOLDIERS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDL3WHITESOLDIERS_BatchState((struct TA_CDL3WHITESOLDIERS_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDL3WHITESOLDIERS(void**st){return TA_CDL3WHITESOLDIERS_StateFree((struct TA_CDL3WHITESOLDIERS_State**)st);}
static TA_RetCode w_CDL3WHITESOLDIERS(void*st,FILE*f){return TA_CDL3WHITESOLDIERS_StateSave((struct TA_CDL3WHITESOLDIERS_State*)st,f);}
static TA_RetCode r_CDL3WHITESOLDIERS(void**st,FILE*f){return TA_CDL3WHITESOLDIERS_StateLoad((struct TA_CDL3WHITESOLDIERS_State**)st,f);}
static TA_RetCode b_CDLABANDONEDBABY(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLABANDONEDBABY(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLABANDONEDBABY(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLABANDONEDBABY(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static int l_CDLABANDONEDBABY(const double*o){return TA_CDLABANDONEDBABY_Lookback(o[0]);}
static TA_RetCode i_CDLABANDONEDBABY(void**st,const double*o){return TA_CDLABANDONEDBABY_StateInit((struct TA_CDLABANDONEDBABY_State**)st, o[0]);}
static TA_RetCode t_CDLABANDONEDBABY(void*st,const double*v,void*const*out){return TA_CDLABANDONEDBABY_State((struct TA_CDLABANDONEDBABY_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLABANDONEDBABY(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLABANDONEDBABY_BatchState((struct TA_CDLABANDONEDBABY_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLABANDONEDBABY(void**st){return TA_CDLABANDONEDBABY_StateFree((struct TA_CDLABANDONEDBABY_State**)st);}
static TA_RetCode w_CDLABANDONEDBABY(void*st,FILE*f){return TA_CDLABANDONEDBABY_StateSave((struct TA_CDLABANDONEDBABY_State*)st,f);}
static TA_RetCode r_CDLABANDONEDBABY(void**st,FILE*f){return TA_CDLABANDONEDBABY_StateLoad((struct TA_CDLABANDONEDBABY_State**)st,f);}
static TA_RetCode b_CDLADVANCEBLOCK(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLADVANCEBLOCK(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLADVANCEBLOCK(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLADVANCEBLOCK(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLADVANCEBLOCK(const double*o){return TA_CDLADVANCEBLOCK_Lookback();}
static TA_RetCode i_CDLADVANCEBLOCK(void**st,const double*o){return TA_CDLADVANCEBLOCK_StateInit((struct TA_CDLADVANCEBLOCK_State**)st);}
static TA_RetCode t_CDLADVANCEBLOCK(void*st,const double*v,void*const*out){return TA_CDLADVANCEBLOCK_State((struct TA_CDLADVANCEBLOCK_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLADVANCEBLOCK(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLADVANCEBLOCK_BatchState((struct TA_CDLADVANCEBLOCK_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLADVANCEBLOCK(void**st){return TA_CDLADVANCEBLOCK_StateFree((struct TA_CDLADVANCEBLOCK_State**)st);}
static TA_RetCode w_CDLADVANCEBLOCK(void*st,FILE*f){return TA_CDLADVANCEBLOCK_StateSave((struct TA_CDLADVANCEBLOCK_State*)st,f);}
static TA_RetCode r_CDLADVANCEBLOCK(void**st,FILE*f){return TA_CDLADVANCEBLOCK_StateLoad((struct TA_CDLADVANCEBLOCK_State**)st,f);}
static TA_RetCode b_CDLBELTHOLD(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLBELTHOLD(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLBELTHOLD(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLBELTHOLD(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLBELTHOLD(const double*o){return TA_CDLBELTHOLD_Lookback();}
static TA_RetCode i_CDLBELTHOLD(void**st,const double*o){return TA_CDLBELTHOLD_StateInit((struct TA_CDLBELTHOLD_State**)st);}
static TA_RetCode t_CDLBELTHOLD(void*st,const double*v,void*const*out){return TA_CDLBELTHOLD_State((struct TA_CDLBELTHOLD_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLBELTHOLD(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLBELTHOLD_BatchState((struct TA_CDLBELTHOLD_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLBELTHOLD(void**st){return TA_CDLBELTHOLD_StateFree((struct TA_CDLBELTHOLD_State**)st);}
static TA_RetCode w_CDLBELTHOLD(void*st,FILE*f){return TA_CDLBELTHOLD_StateSave((struct TA_CDLBELTHOLD_State*)st,f);}
static TA_RetCode r_CDLBELTHOLD(void**st,FILE*f){return TA_CDLBELTHOLD_StateLoad((struct TA_CDLBELTHOLD_State**)st,f);}
static TA_RetCode b_CDLBREAKAWAY(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLBREAKAWAY(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLBREAKAWAY(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLBREAKAWAY(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLBREAKAWAY(const double*o){return TA_CDLBREAKAWAY_Lookback();}
static TA_RetCode i_CDLBREAKAWAY(void**st,const double*o){return TA_CDLBREAKAWAY_StateInit((struct TA_CDLBREAKAWAY_State**)st);}
static TA_RetCode t_CDLBREAKAWAY(void*st,const double*v,void*const*out){return TA_CDLBREAKAWAY_State((struct TA_CDLBREAKAWAY_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLBREAKAWAY(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLBREAKAWAY_BatchState((struct TA_CDLBREAKAWAY_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLBREAKAWAY(void**st){return TA_CDLBREAKAWAY_StateFree((struct TA_CDLBREAKAWAY_State**)st);}
static TA_RetCode w_CDLBREAKAWAY(void*st,FILE*f){return TA_CDLBREAKAWAY_StateSave((struct TA_CDLBREAKAWAY_State*)st,f);}
static TA_RetCode r_CDLBREAKAWAY(void**st,FILE*f){return TA_CDLBREAKAWAY_StateLoad((struct TA_CDLBREAKAWAY_State**)st,f);}
static TA_RetCode b_CDLCLOSINGMARUBOZU(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLCLOSINGMARUBOZU(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLCLOSINGMARUBOZU(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLCLOSINGMARUBOZU(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLCLOSINGMARUBOZU(const double*o){return TA_CDLCLOSINGMARUBOZU_Lookback();}
static TA_RetCode i_CDLCLOSINGMARUBOZU(void**st,const double*o){return TA_CDLCLOSINGMARUBOZU_StateInit((struct TA_CDLCLOSINGMARUBOZU_State**)st);}
static TA_RetCode t_CDLCLOSINGMARUBOZU(void*st,const double*v,void*const*out){return TA_CDLCLOSINGMARUBOZU_State((struct TA_CDLCLOSINGMARUBOZU_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLCLOSINGMARUBOZU(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLCLOSINGMARUBOZU_BatchState((struct TA_CDLCLOSINGMARUBOZU_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLCLOSINGMARUBOZU(void**st){return TA_CDLCLOSINGMARUBOZU_StateFree((struct TA_CDLCLOSINGMARUBOZU_State**)st);}
static TA_RetCode w_CDLCLOSINGMARUBOZU(void*st,FILE*f){return TA_CDLCLOSINGMARUBOZU_StateSave((struct TA_CDLCLOSINGMARUBOZU_State*)st,f);}
static TA_RetCode r_CDLCLOSINGMARUBOZU(void**st,FILE*f){return TA_CDLCLOSINGMARUBOZU_StateLoad((struct TA_CDLCLOSINGMARUBOZU_State**)st,f);}
static TA_RetCode b_CDLCONCEALBABYSWALL(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLCONCEALBABYSWALL(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLCONCEALBABYSWALL(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLCONCEALBABYSWALL(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLCONCEALBABYSWALL(const double*o){return TA_CDLCONCEALBABYSWALL_Lookback();}
static TA_RetCode i_CDLCONCEALBABYSWALL(void**st,const double*o){return TA_CDLCONCEALBABYSWALL_StateInit((struct TA_CDLCONCEALBABYSWALL_State**)st);}
static TA_RetCode t_CDLCONCEALBABYSWALL(void*st,const double*v,void*const*out){return TA_CDLCONCEALBABYSWALL_State((struct TA_CDLCONCEALBABYSWALL_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLCONCEALBABYSWALL(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLCONCEALBABYSWALL_BatchState((struct TA_CDLCONCEALBABYSWALL_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLCONCEALBABYSWALL(void**st){return TA_CDLCONCEALBABYSWALL_StateFree((struct TA_CDLCONCEALBABYSWALL_State**)st);}
static TA_RetCode w_CDLCONCEALBABYSWALL(void*st,FILE*f){return TA_CDLCONCEALBABYSWALL_StateSave((struct TA_CDLCONCEALBABYSWALL_State*)st,f);}
static TA_RetCode r_CDLCONCEALBABYSWALL(void**st,FILE*f){return TA_CDLCONCEALBABYSWALL_StateLoad((struct TA_CDLCONCEALBABYSWALL_State**)st,f);}
static TA_RetCode b_CDLCOUNTERATTACK(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLCOUNTERATTACK(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLCOUNTERATTACK(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLCOUNTERATTACK(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLCOUNTERATTACK(const double*o){return TA_CDLCOUNTERATTACK_Lookback();}
static TA_RetCode i_CDLCOUNTERATTACK(void**st,const double*o){return TA_CDLCOUNTERATTACK_StateInit((struct TA_CDLCOUNTERATTACK_State**)st);}
static TA_RetCode t_CDLCOUNTERATTACK(void*st,const double*v,void*const*out){return TA_CDLCOUNTERATTACK_State((struct TA_CDLCOUNTERATTACK_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLCOUNTERATTACK(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLCOUNTERATTACK_BatchState((struct TA_CDLCOUNTERATTACK_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLCOUNTERATTACK(void**st){return TA_CDLCOUNTERATTACK_StateFree((struct TA_CDLCOUNTERATTACK_State**)st);}
static TA_RetCode w_CDLCOUNTERATTACK(void*st,FILE*f){return TA_CDLCOUNTERATTACK_StateSave((struct TA_CDLCOUNTERATTACK_State*)st,f);}
static TA_RetCode r_CDLCOUNTERATTACK(void**st,FILE*f){return TA_CDLCOUNTERATTACK_StateLoad((struct TA_CDLCOUNTERATTACK_State**)st,f);}
static TA_RetCode b_CDLDARKCLOUDCOVER(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLDARKCLOUDCOVER(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLDARKCLOUDCOVER(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLDARKCLOUDCOVER(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static int l_CDLDARKCLOUDCOVER(const double*o){return TA_CDLDARKCLOUDCOVER_Lookback(o[0]);}
static TA_RetCode i_CDLDARKCLOUDCOVER(void**st,const double*o){return TA_CDLDARKCLOUDCOVER_StateInit((struct TA_CDLDARKCLOUDCOVER_State**)st, o[0]);}
static TA_RetCode t_CDLDARKCLOUDCOVER(void*st,const double*v,void*const*out){return TA_CDLDARKCLOUDCOVER_State((struct TA_CDLDARKCLOUDCOVER_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLDARKCLOUDCOVER(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLDARKCLOUDCOVER_BatchState((struct TA_CDLDARKCLOUDCOVER_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLDARKCLOUDCOVER(void**st){return TA_CDLDARKCLOUDCOVER_StateFree((struct TA_CDLDARKCLOUDCOVER_State**)st);}
static TA_RetCode w_CDLDARKCLOUDCOVER(void*st,FILE*f){return TA_CDLDARKCLOUDCOVER_StateSave((struct TA_CDLDARKCLOUDCOVER_State*)st,f);}
static TA_RetCode r_CDLDARKCLOUDCOVER(void**st,FILE*f){return TA_CDLDARKCLOUDCOVER_StateLoad((struct TA_CDLDARKCLOUDCOVER_State**)st,f);}
static TA_RetCode b_CDLDOJI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLDOJI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLDOJI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLDOJI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLDOJI(const double*o){return TA_CDLDOJI_Lookback();}
static TA_RetCode i_CDLDOJI(void**st,const double*o){return TA_CDLDOJI_StateInit((struct TA_CDLDOJI_State**)st);}
static TA_RetCode t_CDLDOJI(void*st,const double*v,void*const*out){return TA_CDLDOJI_State((struct TA_CDLDOJI_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLDOJI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLDOJI_BatchState((struct TA_CDLDOJI_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLDOJI(void**st){return TA_CDLDOJI_StateFree((struct TA_CDLDOJI_State**)st);}
static TA_RetCode w_CDLDOJI(void*st,FILE*f){return TA_CDLDOJI_StateSave((struct TA_CDLDOJI_State*)st,f);}
static TA_RetCode r_CDLDOJI(void**st,FILE*f){return TA_CDLDOJI_StateLoad((struct TA_CDLDOJI_State**)st,f);}
static TA_RetCode b_CDLDOJISTAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLDOJISTAR(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLDOJISTAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLDOJISTAR(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLDOJISTAR(const double*o){return TA_CDLDOJISTAR_Lookback();}
static TA_RetCode i_CDLDOJISTAR(void**st,const double*o){return TA_CDLDOJISTAR_StateInit((struct TA_CDLDOJISTAR_State**)st);}
static TA_RetCode t_CDLDOJISTAR(void*st,const double*v,void*const*out){return TA_CDLDOJISTAR_State((struct TA_CDLDOJISTAR_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLDOJISTAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLDOJISTAR_BatchState((struct TA_CDLDOJISTAR_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLDOJISTAR(void**st){return TA_CDLDOJISTAR_StateFree((struct TA_CDLDOJISTAR_State**)st);}
static TA_RetCode w_CDLDOJISTAR(void*st,FILE*f){return TA_CDLDOJISTAR_StateSave((struct TA_CDLDOJISTAR_State*)st,f);}
static TA_RetCode r_CDLDOJISTAR(void**st,FILE*f){return TA_CDLDOJISTAR_StateLoad((struct TA_CDLDOJISTAR_State**)st,f);}
static TA_RetCode b_CDLDRAGONFLYDOJI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLDRAGONFLYDOJI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLDRAGONFLYDOJI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLDRAGONFLYDOJI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLDRAGONFLYDOJI(const double*o){return TA_CDLDRAGONFLYDOJI_Lookback();}
static TA_RetCode i_CDLDRAGONFLYDOJI(void**st,const double*o){return TA_CDLDRAGONFLYDOJI_StateInit((struct TA_CDLDRAGONFLYDOJI_State**)st);}
static TA_RetCode t_CDLDRAGONFLYDOJI(void*st,const double*v,void*const*out){return TA_CDLDRAGONFLYDOJI_State((struct TA_CDLDRAGONFLYDOJI_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLDRAGONFLYDOJI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLDRAGONFLYDOJI_BatchState((struct TA_CDLDRAGONFLYDOJI_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLDRAGONFLYDOJI(void**st){return TA_CDLDRAGONFLYDOJI_StateFree((struct TA_CDLDRAGONFLYDOJI_State**)st);}
static TA_RetCode w_CDLDRAGONFLYDOJI(void*st,FILE*f){return TA_CDLDRAGONFLYDOJI_StateSave((struct TA_CDLDRAGONFLYDOJI_State*)st,f);}
static TA_RetCode r_CDLDRAGONFLYDOJI(void**st,FILE*f){return TA_CDLDRAGONFLYDOJI_StateLoad((struct TA_CDLDRAGONFLYDOJI_State**)st,f);}
static TA_RetCode b_CDLENGULFING(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLENGULFING(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLENGULFING(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLENGULFING(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLENGULFING(const double*o){return TA_CDLENGULFING_Lookback();}
static TA_RetCode i_CDLENGULFING(void**st,const double*o){return TA_CDLENGULFING_StateInit((struct TA_CDLENGULFING_State**)st);}
static TA_RetCode t_CDLENGULFING(void*st,const double*v,void*const*out){return TA_CDLENGULFING_State((struct TA_CDLENGULFING_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLENGULFING(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLENGULFING_BatchState((struct TA_CDLENGULFING_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLENGULFING(void**st){return TA_CDLENGULFING_StateFree((struct TA_CDLENGULFING_State**)st);}
static TA_RetCode w_CDLENGULFING(void*st,FILE*f){return TA_CDLENGULFING_StateSave((struct TA_CDLENGULFING_State*)st,f);}
static TA_RetCode r_CDLENGULFING(void**st,FILE*f){return TA_CDLENGULFING_StateLoad((struct TA_CDLENGULFING_State**)st,f);}
static TA_RetCode b_CDLEVENINGDOJISTAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLEVENINGDOJISTAR(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLEVENINGDOJISTAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLEVENINGDOJISTAR(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static int l_CDLEVENINGDOJISTAR(const double*o){return TA_CDLEVENINGDOJISTAR_Lookback(o[0]);}
static TA_RetCode i_CDLEVENINGDOJISTAR(void**st,const double*o){return TA_CDLEVENINGDOJISTAR_StateInit((struct TA_CDLEVENINGDOJISTAR_State**)st, o[0]);}
static TA_RetCode t_CDLEVENINGDOJISTAR(void*st,const double*v,void*const*out){return TA_CDLEVENINGDOJISTAR_State((struct TA_CDLEVENINGDOJISTAR_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLEVENINGDOJISTAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLEVENINGDOJISTAR_BatchState((struct TA_CDLEVENINGDOJISTAR_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLEVENINGDOJISTAR(void**st){return TA_CDLEVENINGDOJISTAR_StateFree((struct TA_CDLEVENINGDOJISTAR_State**)st);}
static TA_RetCode w_CDLEVENINGDOJISTAR(void*st,FILE*f){return TA_CDLEVENINGDOJISTAR_StateSave((struct TA_CDLEVENINGDOJISTAR_State*)st,f);}
static TA_RetCode r_CDLEVENINGDOJISTAR(void**st,FILE*f){return TA_CDLEVENINGDOJISTAR_StateLoad((struct TA_CDLEVENINGDOJISTAR_State**)st,f);}
static TA_RetCode b_CDLEVENINGSTAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLEVENINGSTAR(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLEVENINGSTAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLEVENINGSTAR(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static int l_CDLEVENINGSTAR(const double*o){return TA_CDLEVENINGSTAR_Lookback(o[0]);}
static TA_RetCode i_CDLEVENINGSTAR(void**st,const double*o){return TA_CDLEVENINGSTAR_StateInit((struct TA_CDLEVENINGSTAR_State**)st, o[0]);}
static TA_RetCode t_CDLEVENINGSTAR(void*st,const double*v,void*const*out){return TA_CDLEVENINGSTAR_State((struct TA_CDLEVENINGSTAR_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLEVENINGSTAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLEVENINGSTAR_BatchState((struct TA_CDLEVENINGSTAR_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLEVENINGSTAR(void**st){return TA_CDLEVENINGSTAR_StateFree((struct TA_CDLEVENINGSTAR_State**)st);}
static TA_RetCode w_CDLEVENINGSTAR(void*st,FILE*f){return TA_CDLEVENINGSTAR_StateSave((struct TA_CDLEVENINGSTAR_State*)st,f);}
static TA_RetCode r_CDLEVENINGSTAR(void**st,FILE*f){return TA_CDLEVENINGSTAR_StateLoad((struct TA_CDLEVENINGSTAR_State**)st,f);}
static TA_RetCode b_CDLGAPSIDESIDEWHITE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLGAPSIDESIDEWHITE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLGAPSIDESIDEWHITE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLGAPSIDESIDEWHITE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLGAPSIDESIDEWHITE(const double*o){return TA_CDLGAPSIDESIDEWHITE_Lookback();}
static TA_RetCode i_CDLGAPSIDESIDEWHITE(void**st,const double*o){return TA_CDLGAPSIDESIDEWHITE_StateInit((struct TA_CDLGAPSIDESIDEWHITE_State**)st);}
static TA_RetCode t_CDLGAPSIDESIDEWHITE(void*st,const double*v,void*const*out){return TA_CDLGAPSIDESIDEWHITE_State((struct TA_CDLGAPSIDESIDEWHITE_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLGAPSIDESIDEWHITE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLGAPSIDESIDEWHITE_BatchState((struct TA_CDLGAPSIDESIDEWHITE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLGAPSIDESIDEWHITE(void**st){return TA_CDLGAPSIDESIDEWHITE_StateFree((struct TA_CDLGAPSIDESIDEWHITE_State**)st);}
static TA_RetCode w_CDLGAPSIDESIDEWHITE(void*st,FILE*f){return TA_CDLGAPSIDESIDEWHITE_StateSave((struct TA_CDLGAPSIDESIDEWHITE_State*)st,f);}
static TA_RetCode r_CDLGAPSIDESIDEWHITE(void**st,FILE*f){return TA_CDLGAPSIDESIDEWHITE_StateLoad((struct TA_CDLGAPSIDESIDEWHITE_State**)st,f);}
static TA_RetCode b_CDLGRAVESTONEDOJI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLGRAVESTONEDOJI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLGRAVESTONEDOJI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLGRAVESTONEDOJI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLGRAVESTONEDOJI(const double*o){return TA_CDLGRAVESTONEDOJI_Lookback();}
static TA_RetCode i_CDLGRAVESTONEDOJI(void**st,const double*o){return TA_CDLGRAVESTONEDOJI_StateInit((struct TA_CDLGRAVESTONEDOJI_State**)st);}
static TA_RetCode t_CDLGRAVESTONEDOJI(void*st,const double*v,void*const*out){return TA_CDLGRAVESTONEDOJI_State((struct TA_CDLGRAVESTONEDOJI_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLGRAVESTONEDOJI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLGRAVESTONEDOJI_BatchState((struct TA_CDLGRAVESTONEDOJI_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLGRAVESTONEDOJI(void**st){return TA_CDLGRAVESTONEDOJI_StateFree((struct TA_CDLGRAVESTONEDOJI_State**)st);}
static TA_RetCode w_CDLGRAVESTONEDOJI(void*st,FILE*f){return TA_CDLGRAVESTONEDOJI_StateSave((struct TA_CDLGRAVESTONEDOJI_State*)st,f);}
static TA_RetCode r_CDLGRAVESTONEDOJI(void**st,FILE*f){return TA_CDLGRAVESTONEDOJI_StateLoad((struct TA_CDLGRAVESTONEDOJI_State**)st,f);}
static TA_RetCode b_CDLHAMMER(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLHAMMER(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLHAMMER(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLHAMMER(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLHAMMER(const double*o){return TA_CDLHAMMER_Lookback();}
static TA_RetCode i_CDLHAMMER(void**st,const double*o){return TA_CDLHAMMER_StateInit((struct TA_CDLHAMMER_State**)st);}
static TA_RetCode t_CDLHAMMER(void*st,const double*v,void*const*out){return TA_CDLHAMMER_State((struct TA_CDLHAMMER_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLHAMMER(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLHAMMER_BatchState((struct TA_CDLHAMMER_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLHAMMER(void**st){return TA_CDLHAMMER_StateFree((struct TA_CDLHAMMER_State**)st);}
static TA_RetCode w_CDLHAMMER(void*st,FILE*f){return TA_CDLHAMMER_StateSave((struct TA_CDLHAMMER_State*)st,f);}
static TA_RetCode r_CDLHAMMER(void**st,FILE*f){return TA_CDLHAMMER_StateLoad((struct TA_CDLHAMMER_State**)st,f);}
static TA_RetCode b_CDLHANGINGMAN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLHANGINGMAN(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLHANGINGMAN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLHANGINGMAN(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLHANGINGMAN(const double*o){return TA_CDLHANGINGMAN_Lookback();}
static TA_RetCode i_CDLHANGINGMAN(void**st,const double*o){return TA_CDLHANGINGMAN_StateInit((struct TA_CDLHANGINGMAN_State**)st);}
static TA_RetCode t_CDLHANGINGMAN(void*st,const double*v,void*const*out){return TA_CDLHANGINGMAN_State((struct TA_CDLHANGINGMAN_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLHANGINGMAN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLHANGINGMAN_BatchState((struct TA_CDLHANGINGMAN_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLHANGINGMAN(void**st){return TA_CDLHANGINGMAN_StateFree((struct TA_CDLHANGINGMAN_State**)st);}
static TA_RetCode w_CDLHANGINGMAN(void*st,FILE*f){return TA_CDLHANGINGMAN_StateSave((struct TA_CDLHANGINGMAN_State*)st,f);}
static TA_RetCode r_CDLHANGINGMAN(void**st,FILE*f){return TA_CDLHANGINGMAN_StateLoad((struct TA_CDLHANGINGMAN_State**)st,f);}
static TA_RetCode b_CDLHARAMI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLHARAMI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLHARAMI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLHARAMI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLHARAMI(const double*o){return TA_CDLHARAMI_Lookback();}
static TA_RetCode i_CDLHARAMI(void**st,const double*o){return TA_CDLHARAMI_StateInit((struct TA_CDLHARAMI_State**)st);}
static TA_RetCode t_CDLHARAMI(void*st,const double*v,void*const*out){return TA_CDLHARAMI_State((struct TA_CDLHARAMI_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLHARAMI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLHARAMI_BatchState((struct TA_CDLHARAMI_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLHARAMI(void**st){return TA_CDLHARAMI_StateFree((struct TA_CDLHARAMI_State**)st);}
static TA_RetCode w_CDLHARAMI(void*st,FILE*f){return TA_CDLHARAMI_StateSave((struct TA_CDLHARAMI_State*)st,f);}
static TA_RetCode r_CDLHARAMI(void**st,FILE*f){return TA_CDLHARAMI_StateLoad((struct TA_CDLHARAMI_State**)st,f);}
static TA_RetCode b_CDLHARAMICROSS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLHARAMICROSS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLHARAMICROSS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLHARAMICROSS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLHARAMICROSS(const double*o){return TA_CDLHARAMICROSS_Lookback();}
static TA_RetCode i_CDLHARAMICROSS(void**st,const double*o){return TA_CDLHARAMICROSS_StateInit((struct TA_CDLHARAMICROSS_State**)st);}
static TA_RetCode t_CDLHARAMICROSS(void*st,const double*v,void*const*out){return TA_CDLHARAMICROSS_State((struct TA_CDLHARAMICROSS_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLHARAMICROSS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLHARAMICROSS_BatchState((struct TA_CDLHARAMICROSS_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLHARAMICROSS(void**st){return TA_CDLHARAMICROSS_StateFree((struct TA_CDLHARAMICROSS_State**)st);}
static TA_RetCode w_CDLHARAMICROSS(void*st,FILE*f){return TA_CDLHARAMICROSS_StateSave((struct TA_CDLHARAMICROSS_State*)st,f);}
static TA_RetCode r_CDLHARAMICROSS(void**st,FILE*f){return TA_CDLHARAMICROSS_StateLoad((struct TA_CDLHARAMICROSS_State**)st,f);}
static TA_RetCode b_CDLHIGHWAVE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLHIGHWAVE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLHIGHWAVE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLHIGHWAVE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLHIGHWAVE(const double*o){return TA_CDLHIGHWAVE_Lookback();}
static TA_RetCode i_CDLHIGHWAVE(void**st,const double*o){return TA_CDLHIGHWAVE_StateInit((struct TA_CDLHIGHWAVE_State**)st);}
static TA_RetCode t_CDLHIGHWAVE(void*st,const double*v,void*const*out){return TA_CDLHIGHWAVE_State((struct TA_CDLHIGHWAVE_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLHIGHWAVE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLHIGHWAVE_BatchState((struct TA_CDLHIGHWAVE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLHIGHWAVE(void**st){return TA_CDLHIGHWAVE_StateFree((struct TA_CDLHIGHWAVE_State**)st);}
static TA_RetCode w_CDLHIGHWAVE(void*st,FILE*f){return TA_CDLHIGHWAVE_StateSave((struct TA_CDLHIGHWAVE_State*)st,f);}
static TA_RetCode r_CDLHIGHWAVE(void**st,FILE*f){return TA_CDLHIGHWAVE_StateLoad((struct TA_CDLHIGHWAVE_State**)st,f);}
static TA_RetCode b_CDLHIKKAKE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLHIKKAKE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLHIKKAKE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLHIKKAKE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLHIKKAKE(const double*o){return TA_CDLHIKKAKE_Lookback();}
static TA_RetCode i_CDLHIKKAKE(void**st,const double*o){return TA_CDLHIKKAKE_StateInit((struct TA_CDLHIKKAKE_State**)st);}
static TA_RetCode t_CDLHIKKAKE(void*st,const double*v,void*const*out){return TA_CDLHIKKAKE_State((struct TA_CDLHIKKAKE_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLHIKKAKE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLHIKKAKE_BatchState((struct TA_CDLHIKKAKE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLHIKKAKE(void**st){return TA_CDLHIKKAKE_StateFree((struct TA_CDLHIKKAKE_State**)st);}
static TA_RetCode w_CDLHIKKAKE(void*st,FILE*f){return TA_CDLHIKKAKE_StateSave((struct TA_CDLHIKKAKE_State*)st,f);}
static TA_RetCode r_CDLHIKKAKE(void**st,FILE*f){return TA_CDLHIKKAKE_StateLoad((struct TA_CDLHIKKAKE_State**)st,f);}
static TA_RetCode b_CDLHIKKAKEMOD(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLHIKKAKEMOD(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLHIKKAKEMOD(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLHIKKAKEMOD(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLHIKKAKEMOD(const double*o){return TA_CDLHIKKAKEMOD_Lookback();}
static TA_RetCode i_CDLHIKKAKEMOD(void**st,const double*o){return TA_CDLHIKKAKEMOD_StateInit((struct TA_CDLHIKKAKEMOD_State**)st);}
static TA_RetCode t_CDLHIKKAKEMOD(void*st,const double*v,void*const*out){return TA_CDLHIKKAKEMOD_State((struct TA_CDLHIKKAKEMOD_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLHIKKAKEMOD(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLHIKKAKEMOD_BatchState((struct TA_CDLHIKKAKEMOD_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLHIKKAKEMOD(void**st){return TA_CDLHIKKAKEMOD_StateFree((struct TA_CDLHIKKAKEMOD_State**)st);}
static TA_RetCode w_CDLHIKKAKEMOD(void*st,FILE*f){return TA_CDLHIKKAKEMOD_StateSave((struct TA_CDLHIKKAKEMOD_State*)st,f);}
static TA_RetCode r_CDLHIKKAKEMOD(void**st,FILE*f){return TA_CDLHIKKAKEMOD_StateLoad((struct TA_CDLHIKKAKEMOD_State**)st,f);}
static TA_RetCode b_CDLHOMINGPIGEON(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLHOMINGPIGEON(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLHOMINGPIGEON(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLHOMINGPIGEON(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLHOMINGPIGEON(const double*o){return TA_CDLHOMINGPIGEON_Lookback();}
static TA_RetCode i_CDLHOMINGPIGEON(void**st,const double*o){return TA_CDLHOMINGPIGEON_StateInit((struct TA_CDLHOMINGPIGEON_State**)st);}
static TA_RetCode t_CDLHOMINGPIGEON(void*st,const double*v,void*const*out){return TA_CDLHOMINGPIGEON_State((struct TA_CDLHOMINGPIGEON_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLHOMINGPIGEON(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLHOMINGPIGEON_BatchState((struct TA_CDLHOMINGPIGEON_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLHOMINGPIGEON(void**st){return TA_CDLHOMINGPIGEON_StateFree((struct TA_CDLHOMINGPIGEON_State**)st);}
static TA_RetCode w_CDLHOMINGPIGEON(void*st,FILE*f){return TA_CDLHOMINGPIGEON_StateSave((struct TA_CDLHOMINGPIGEON_State*)st,f);}
static TA_RetCode r_CDLHOMINGPIGEON(void**st,FILE*f){return TA_CDLHOMINGPIGEON_StateLoad((struct TA_CDLHOMINGPIGEON_State**)st,f);}
static TA_RetCode b_CDLIDENTICAL3CROWS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLIDENTICAL3CROWS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLIDENTICAL3CROWS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLIDENTICAL3CROWS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLIDENTICAL3CROWS(const double*o){return TA_CDLIDENTICAL3CROWS_Lookback();}
static TA_RetCode i_CDLIDENTICAL3CROWS(void**st,const double*o){return TA_CDLIDENTICAL3CROWS_StateInit((struct TA_CDLIDENTICAL3CROWS_State**)st);}
static TA_RetCode t_CDLIDENTICAL3CROWS(void*st,const double*v,void*const*out){return TA_CDLIDENTICAL3CROWS_State((struct TA_CDLIDENTICAL3CROWS_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLIDENTICAL3CROWS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLIDENTICAL3CROWS_BatchState((struct TA_CDLIDENTICAL3CROWS_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLIDENTICAL3CROWS(void**st){return TA_CDLIDENTICAL3CROWS_StateFree((struct TA_CDLIDENTICAL3CROWS_State**)st);}
static TA_RetCode w_CDLIDENTICAL3CROWS(void*st,FILE*f){return TA_CDLIDENTICAL3CROWS_StateSave((struct TA_CDLIDENTICAL3CROWS_State*)st,f);}
static TA_RetCode r_CDLIDENTICAL3CROWS(void**st,FILE*f){return TA_CDLIDENTICAL3CROWS_StateLoad((struct TA_CDLIDENTICAL3CROWS_State**)st,f);}
static TA_RetCode b_CDLINNECK(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLINNECK(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLINNECK(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLINNECK(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLINNECK(const double*o){return TA_CDLINNECK_Lookback();}
static TA_RetCode i_CDLINNECK(void**st,const double*o){return TA_CDLINNECK_StateInit((struct TA_CDLINNECK_State**)st);}
static TA_RetCode t_CDLINNECK(void*st,const double*v,void*const*out){return TA_CDLINNECK_State((struct TA_CDLINNECK_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLINNECK(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLINNECK_BatchState((struct TA_CDLINNECK_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLINNECK(void**st){return TA_CDLINNECK_StateFree((struct TA_CDLINNECK_State**)st);}
static TA_RetCode w_CDLINNECK(void*st,FILE*f){return TA_CDLINNECK_StateSave((struct TA_CDLINNECK_State*)st,f);}
static TA_RetCode r_CDLINNECK(void**st,FILE*f){return TA_CDLINNECK_StateLoad((struct TA_CDLINNECK_State**)st,f);}
static TA_RetCode b_CDLINVERTEDHAMMER(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLINVERTEDHAMMER(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLINVERTEDHAMMER(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLINVERTEDHAMMER(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLINVERTEDHAMMER(const double*o){return TA_CDLINVERTEDHAMMER_Lookback();}
static TA_RetCode i_CDLINVERTEDHAMMER(void**st,const double*o){return TA_CDLINVERTEDHAMMER_StateInit((struct TA_CDLINVERTEDHAMMER_State**)st);}
static TA_RetCode t_CDLINVERTEDHAMMER(void*st,const double*v,void*const*out){return TA_CDLINVERTEDHAMMER_State((struct TA_CDLINVERTEDHAMMER_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLINVERTEDHAMMER(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLINVERTEDHAMMER_BatchState((struct TA_CDLINVERTEDHAMMER_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLINVERTEDHAMMER(void**st){return TA_CDLINVERTEDHAMMER_StateFree((struct TA_CDLINVERTEDHAMMER_State**)st);}
static TA_RetCode w_CDLINVERTEDHAMMER(void*st,FILE*f){return TA_CDLINVERTEDHAMMER_StateSave((struct TA_CDLINVERTEDHAMMER_State*)st,f);}
static TA_RetCode r_CDLINVERTEDHAMMER(void**st,FILE*f){return TA_CDLINVERTEDHAMMER_StateLoad((struct TA_CDLINVERTEDHAMMER_State**)st,f);}
static TA_RetCode b_CDLKICKING(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLKICKING(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLKICKING(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLKICKING(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLKICKING(const double*o){return TA_CDLKICKING_Lookback();}
static TA_RetCode i_CDLKICKING(void**st,const double*o){return TA_CDLKICKING_StateInit((struct TA_CDLKICKING_State**)st);}
static TA_RetCode t_CDLKICKING(void*st,const double*v,void*const*out){return TA_CDLKICKING_State((struct TA_CDLKICKING_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLKICKING(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLKICKING_BatchState((struct TA_CDLKICKING_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLKICKING(void**st){return TA_CDLKICKING_StateFree((struct TA_CDLKICKING_State**)st);}
static TA_RetCode w_CDLKICKING(void*st,FILE*f){return TA_CDLKICKING_StateSave((struct TA_CDLKICKING_State*)st,f);}
static TA_RetCode r_CDLKICKING(void**st,FILE*f){return TA_CDLKICKING_StateLoad((struct TA_CDLKICKING_State**)st,f);}
static TA_RetCode b_CDLKICKINGBYLENGTH(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLKICKINGBYLENGTH(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLKICKINGBYLENGTH(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLKICKINGBYLENGTH(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLKICKINGBYLENGTH(const double*o){return TA_CDLKICKINGBYLENGTH_Lookback();}
static TA_RetCode i_CDLKICKINGBYLENGTH(void**st,const double*o){return TA_CDLKICKINGBYLENGTH_StateInit((struct TA_CDLKICKINGBYLENGTH_State**)st);}
static TA_RetCode t_CDLKICKINGBYLENGTH(void*st,const double*v,void*const*out){return TA_CDLKICKINGBYLENGTH_State((struct TA_CDLKICKINGBYLENGTH_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLKICKINGBYLENGTH(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLKICKINGBYLENGTH_BatchState((struct TA_CDLKICKINGBYLENGTH_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLKICKINGBYLENGTH(void**st){return TA_CDLKICKINGBYLENGTH_StateFree((struct TA_CDLKICKINGBYLENGTH_State**)st);}
static TA_RetCode w_CDLKICKINGBYLENGTH(void*st,FILE*f){return TA_CDLKICKINGBYLENGTH_StateSave((struct TA_CDLKICKINGBYLENGTH_State*)st,f);}
static TA_RetCode r_CDLKICKINGBYLENGTH(void**st,FILE*f){return TA_CDLKICKINGBYLENGTH_StateLoad((struct TA_CDLKICKINGBYLENGTH_State**)st,f);}
static TA_RetCode b_CDLLADDERBOTTOM(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLLADDERBOTTOM(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLLADDERBOTTOM(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLLADDERBOTTOM(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLLADDERBOTTOM(const double*o){return TA_CDLLADDERBOTTOM_Lookback();}
static TA_RetCode i_CDLLADDERBOTTOM(void**st,const double*o){return TA_CDLLADDERBOTTOM_StateInit((struct TA_CDLLADDERBOTTOM_State**)st);}
static TA_RetCode t_CDLLADDERBOTTOM(void*st,const double*v,void*const*out){return TA_CDLLADDERBOTTOM_State((struct TA_CDLLADDERBOTTOM_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLLADDERBOTTOM(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLLADDERBOTTOM_BatchState((struct TA_CDLLADDERBOTTOM_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLLADDERBOTTOM(void**st){return TA_CDLLADDERBOTTOM_StateFree((struct TA_CDLLADDERBOTTOM_State**)st);}
static TA_RetCode w_CDLLADDERBOTTOM(void*st,FILE*f){return TA_CDLLADDERBOTTOM_StateSave((struct TA_CDLLADDERBOTTOM_State*)st,f);}
static TA_RetCode r_CDLLADDERBOTTOM(void**st,FILE*f){return TA_CDLLADDERBOTTOM_StateLoad((struct TA_CDLLADDERBOTTOM_State**)st,f);}
static TA_RetCode b_CDLLONGLEGGEDDOJI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLLONGLEGGEDDOJI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLLONGLEGGEDDOJI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLLONGLEGGEDDOJI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLLONGLEGGEDDOJI(const double*o){return TA_CDLLONGLEGGEDDOJI_Lookback();}
static TA_RetCode i_CDLLONGLEGGEDDOJI(void**st,const double*o){return TA_CDLLONGLEGGEDDOJI_StateInit((struct TA_CDLLONGLEGGEDDOJI_State**)st);}
static TA_RetCode t_CDLLONGLEGGEDDOJI(void*st,const double*v,void*const*out){return TA_CDLLONGLEGGEDDOJI_State((struct TA_CDLLONGLEGGEDDOJI_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLLONGLEGGEDDOJI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLLONGLEGGEDDOJI_BatchState((struct TA_CDLLONGLEGGEDDOJI_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLLONGLEGGEDDOJI(void**st){return TA_CDLLONGLEGGEDDOJI_StateFree((struct TA_CDLLONGLEGGEDDOJI_State**)st);}
static TA_RetCode w_CDLLONGLEGGEDDOJI(void*st,FILE*f){return TA_CDLLONGLEGGEDDOJI_StateSave((struct TA_CDLLONGLEGGEDDOJI_State*)st,f);}
static TA_RetCode r_CDLLONGLEGGEDDOJI(void**st,FILE*f){return TA_CDLLONGLEGGEDDOJI_StateLoad((struct TA_CDLLONGLEGGEDDOJI_State**)st,f);}
static TA_RetCode b_CDLLONGLINE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLLONGLINE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLLONGLINE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLLONGLINE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLLONGLINE(const double*o){return TA_CDLLONGLINE_Lookback();}
static TA_RetCode i_CDLLONGLINE(void**st,const double*o){return TA_CDLLONGLINE_StateInit((struct TA_CDLLONGLINE_State**)st);}
static TA_RetCode t_CDLLONGLINE(void*st,const double*v,void*const*out){return TA_CDLLONGLINE_State((struct TA_CDLLONGLINE_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLLONGLINE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLLONGLINE_BatchState((struct TA_CDLLONGLINE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLLONGLINE(void**st){return TA_CDLLONGLINE_StateFree((struct TA_CDLLONGLINE_State**)st);}
static TA_RetCode w_CDLLONGLINE(void*st,FILE*f){return TA_CDLLONGLINE_StateSave((struct TA_CDLLONGLINE_State*)st,f);}
static TA_RetCode r_CDLLONGLINE(void**st,FILE*f){return TA_CDLLONGLINE_StateLoad((struct TA_CDLLONGLINE_State**)st,f);}
static TA_RetCode b_CDLMARUBOZU(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLMARUBOZU(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLMARUBOZU(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLMARUBOZU(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLMARUBOZU(const double*o){return TA_CDLMARUBOZU_Lookback();}
static TA_RetCode i_CDLMARUBOZU(void**st,const double*o){return TA_CDLMARUBOZU_StateInit((struct TA_CDLMARUBOZU_State**)st);}
static TA_RetCode t_CDLMARUBOZU(void*st,const double*v,void*const*out){return TA_CDLMARUBOZU_State((struct TA_CDLMARUBOZU_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLMARUBOZU(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLMARUBOZU_BatchState((struct TA_CDLMARUBOZU_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLMARUBOZU(void**st){return TA_CDLMARUBOZU_StateFree((struct TA_CDLMARUBOZU_State**)st);}
static TA_RetCode w_CDLMARUBOZU(void*st,FILE*f){return TA_CDLMARUBOZU_StateSave((struct TA_CDLMARUBOZU_State*)st,f);}
static TA_RetCode r_CDLMARUBOZU(void**st,FILE*f){return TA_CDLMARUBOZU_StateLoad((struct TA_CDLMARUBOZU_State**)st,f);}
static TA_RetCode b_CDLMATCHINGLOW(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLMATCHINGLOW(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLMATCHINGLOW(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLMATCHINGLOW(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLMATCHINGLOW(const double*o){return TA_CDLMATCHINGLOW_Lookback();}
static TA_RetCode i_CDLMATCHINGLOW(void**st,const double*o){return TA_CDLMATCHINGLOW_StateInit((struct TA_CDLMATCHINGLOW_State**)st);}
static TA_RetCode t_CDLMATCHINGLOW(void*st,const double*v,void*const*out){return TA_CDLMATCHINGLOW_State((struct TA_CDLMATCHINGLOW_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLMATCHINGLOW(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLMATCHINGLOW_BatchState((struct TA_CDLMATCHINGLOW_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLMATCHINGLOW(void**st){return TA_CDLMATCHINGLOW_StateFree((struct TA_CDLMATCHINGLOW_State**)st);}
static TA_RetCode w_CDLMATCHINGLOW(void*st,FILE*f){return TA_CDLMATCHINGLOW_StateSave((struct TA_CDLMATCHINGLOW_State*)st,f);}
static TA_RetCode r_CDLMATCHINGLOW(void**st,FILE*f){return TA_CDLMATCHINGLOW_StateLoad((struct TA_CDLMATCHINGLOW_State**)st,f);}
static TA_RetCode b_CDLMATHOLD(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLMATHOLD(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLMATHOLD(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLMATHOLD(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static int l_CDLMATHOLD(const double*o){return TA_CDLMATHOLD_Lookback(o[0]);}
static TA_RetCode i_CDLMATHOLD(void**st,const double*o){return TA_CDLMATHOLD_StateInit((struct TA_CDLMATHOLD_State**)st, o[0]);}
static TA_RetCode t_CDLMATHOLD(void*st,const double*v,void*const*out){return TA_CDLMATHOLD_State((struct TA_CDLMATHOLD_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLMATHOLD(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLMATHOLD_BatchState((struct TA_CDLMATHOLD_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLMATHOLD(void**st){return TA_CDLMATHOLD_StateFree((struct TA_CDLMATHOLD_State**)st);}
static TA_RetCode w_CDLMATHOLD(void*st,FILE*f){return TA_CDLMATHOLD_StateSave((struct TA_CDLMATHOLD_State*)st,f);}
static TA_RetCode r_CDLMATHOLD(void**st,FILE*f){return TA_CDLMATHOLD_StateLoad((struct TA_CDLMATHOLD_State**)st,f);}
static TA_RetCode b_CDLMORNINGDOJISTAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLMORNINGDOJISTAR(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLMORNINGDOJISTAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLMORNINGDOJISTAR(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static int l_CDLMORNINGDOJISTAR(const double*o){return TA_CDLMORNINGDOJISTAR_Lookback(o[0]);}
static TA_RetCode i_CDLMORNINGDOJISTAR(void**st,const double*o){return TA_CDLMORNINGDOJISTAR_StateInit((struct TA_CDLMORNINGDOJISTAR_State**)st, o[0]);}
static TA_RetCode t_CDLMORNINGDOJISTAR(void*st,const double*v,void*const*out){return TA_CDLMORNINGDOJISTAR_State((struct TA_CDLMORNINGDOJISTAR_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLMORNINGDOJISTAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLMORNINGDOJISTAR_BatchState((struct TA_CDLMORNINGDOJISTAR_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLMORNINGDOJISTAR(void**st){return TA_CDLMORNINGDOJISTAR_StateFree((struct TA_CDLMORNINGDOJISTAR_State**)st);}
static TA_RetCode w_CDLMORNINGDOJISTAR(void*st,FILE*f){return TA_CDLMORNINGDOJISTAR_StateSave((struct TA_CDLMORNINGDOJISTAR_State*)st,f);}
static TA_RetCode r_CDLMORNINGDOJISTAR(void**st,FILE*f){return TA_CDLMORNINGDOJISTAR_StateLoad((struct TA_CDLMORNINGDOJISTAR_State**)st,f);}
static TA_RetCode b_CDLMORNINGSTAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLMORNINGSTAR(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLMORNINGSTAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLMORNINGSTAR(s, e, in[0], in[1], in[2], in[3], o[0], bg, nb, (int*)out[0]);}
static int l_CDLMORNINGSTAR(const double*o){return TA_CDLMORNINGSTAR_Lookback(o[0]);}
static TA_RetCode i_CDLMORNINGSTAR(void**st,const double*o){return TA_CDLMORNINGSTAR_StateInit((struct TA_CDLMORNINGSTAR_State**)st, o[0]);}
static TA_RetCode t_CDLMORNINGSTAR(void*st,const double*v,void*const*out){return TA_CDLMORNINGSTAR_State((struct TA_CDLMORNINGSTAR_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLMORNINGSTAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLMORNINGSTAR_BatchState((struct TA_CDLMORNINGSTAR_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLMORNINGSTAR(void**st){return TA_CDLMORNINGSTAR_StateFree((struct TA_CDLMORNINGSTAR_State**)st);}
static TA_RetCode w_CDLMORNINGSTAR(void*st,FILE*f){return TA_CDLMORNINGSTAR_StateSave((struct TA_CDLMORNINGSTAR_State*)st,f);}
static TA_RetCode r_CDLMORNINGSTAR(void**st,FILE*f){return TA_CDLMORNINGSTAR_StateLoad((struct TA_CDLMORNINGSTAR_State**)st,f);}
static TA_RetCode b_CDLONNECK(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLONNECK(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLONNECK(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLONNECK(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLONNECK(const double*o){return TA_CDLONNECK_Lookback();}
static TA_RetCode i_CDLONNECK(void**st,const double*o){return TA_CDLONNECK_StateInit((struct TA_CDLONNECK_State**)st);}
static TA_RetCode t_CDLONNECK(void*st,const double*v,void*const*out){return TA_CDLONNECK_State((struct TA_CDLONNECK_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLONNECK(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLONNECK_BatchState((struct TA_CDLONNECK_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLONNECK(void**st){return TA_CDLONNECK_StateFree((struct TA_CDLONNECK_State**)st);}
static TA_RetCode w_CDLONNECK(void*st,FILE*f){return TA_CDLONNECK_StateSave((struct TA_CDLONNECK_State*)st,f);}
static TA_RetCode r_CDLONNECK(void**st,FILE*f){return TA_CDLONNECK_StateLoad((struct TA_CDLONNECK_State**)st,f);}
static TA_RetCode b_CDLPIERCING(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLPIERCING(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLPIERCING(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLPIERCING(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLPIERCING(const double*o){return TA_CDLPIERCING_Lookback();}
static TA_RetCode i_CDLPIERCING(void**st,const double*o){return TA_CDLPIERCING_StateInit((struct TA_CDLPIERCING_State**)st);}
static TA_RetCode t_CDLPIERCING(void*st,const double*v,void*const*out){return TA_CDLPIERCING_State((struct TA_CDLPIERCING_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLPIERCING(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLPIERCING_BatchState((struct TA_CDLPIERCING_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLPIERCING(void**st){return TA_CDLPIERCING_StateFree((struct TA_CDLPIERCING_State**)st);}
static TA_RetCode w_CDLPIERCING(void*st,FILE*f){return TA_CDLPIERCING_StateSave((struct TA_CDLPIERCING_State*)st,f);}
static TA_RetCode r_CDLPIERCING(void**st,FILE*f){return TA_CDLPIERCING_StateLoad((struct TA_CDLPIERCING_State**)st,f);}
static TA_RetCode b_CDLRICKSHAWMAN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLRICKSHAWMAN(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLRICKSHAWMAN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLRICKSHAWMAN(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLRICKSHAWMAN(const double*o){return TA_CDLRICKSHAWMAN_Lookback();}
static TA_RetCode i_CDLRICKSHAWMAN(void**st,const double*o){return TA_CDLRICKSHAWMAN_StateInit((struct TA_CDLRICKSHAWMAN_State**)st);}
static TA_RetCode t_CDLRICKSHAWMAN(void*st,const double*v,void*const*out){return TA_CDLRICKSHAWMAN_State((struct TA_CDLRICKSHAWMAN_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLRICKSHAWMAN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLRICKSHAWMAN_BatchState((struct TA_CDLRICKSHAWMAN_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLRICKSHAWMAN(void**st){return TA_CDLRICKSHAWMAN_StateFree((struct TA_CDLRICKSHAWMAN_State**)st);}
static TA_RetCode w_CDLRICKSHAWMAN(void*st,FILE*f){return TA_CDLRICKSHAWMAN_StateSave((struct TA_CDLRICKSHAWMAN_State*)st,f);}
static TA_RetCode r_CDLRICKSHAWMAN(void**st,FILE*f){return TA_CDLRICKSHAWMAN_StateLoad((struct TA_CDLRICKSHAWMAN_State**)st,f);}
static TA_RetCode b_CDLRISEFALL3METHODS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLRISEFALL3METHODS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLRISEFALL3METHODS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLRISEFALL3METHODS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLRISEFALL3METHODS(const double*o){return TA_CDLRISEFALL3METHODS_Lookback();}
static TA_RetCode i_CDLRISEFALL3METHODS(void**st,const double*o){return TA_CDLRISEFALL3METHODS_StateInit((struct TA_CDLRISEFALL3METHODS_State**)st);}
static TA_RetCode t_CDLRISEFALL3METHODS(void*st,const double*v,void*const*out){return TA_CDLRISEFALL3METHODS_State((struct TA_CDLRISEFALL3METHODS_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLRISEFALL3METHODS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLRISEFALL3METHODS_BatchState((struct TA_CDLRISEFALL3METHODS_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLRISEFALL3METHODS(void**st){return TA_CDLRISEFALL3METHODS_StateFree((struct TA_CDLRISEFALL3METHODS_State**)st);}
static TA_RetCode w_CDLRISEFALL3METHODS(void*st,FILE*f){return TA_CDLRISEFALL3METHODS_StateSave((struct TA_CDLRISEFALL3METHODS_State*)st,f);}
static TA_RetCode r_CDLRISEFALL3METHODS(void**st,FILE*f){return TA_CDLRISEFALL3METHODS_StateLoad((struct TA_CDLRISEFALL3METHODS_State**)st,f);}
static TA_RetCode b_CDLSEPARATINGLINES(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLSEPARATINGLINES(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLSEPARATINGLINES(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLSEPARATINGLINES(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLSEPARATINGLINES(const double*o){return TA_CDLSEPARATINGLINES_Lookback();}
static TA_RetCode i_CDLSEPARATINGLINES(void**st,const double*o){return TA_CDLSEPARATINGLINES_StateInit((struct TA_CDLSEPARATINGLINES_State**)st);}
static TA_RetCode t_CDLSEPARATINGLINES(void*st,const double*v,void*const*out){return TA_CDLSEPARATINGLINES_State((struct TA_CDLSEPARATINGLINES_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLSEPARATINGLINES(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLSEPARATINGLINES_BatchState((struct TA_CDLSEPARATINGLINES_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLSEPARATINGLINES(void**st){return TA_CDLSEPARATINGLINES_StateFree((struct TA_CDLSEPARATINGLINES_State**)st);}
static TA_RetCode w_CDLSEPARATINGLINES(void*st,FILE*f){return TA_CDLSEPARATINGLINES_StateSave((struct TA_CDLSEPARATINGLINES_State*)st,f);}
static TA_RetCode r_CDLSEPARATINGLINES(void**st,FILE*f){return TA_CDLSEPARATINGLINES_StateLoad((struct TA_CDLSEPARATINGLINES_State**)st,f);}
static TA_RetCode b_CDLSHOOTINGSTAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLSHOOTINGSTAR(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLSHOOTINGSTAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLSHOOTINGSTAR(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLSHOOTINGSTAR(const double*o){return TA_CDLSHOOTINGSTAR_Lookback();}
static TA_RetCode i_CDLSHOOTINGSTAR(void**st,const double*o){return TA_CDLSHOOTINGSTAR_StateInit((struct TA_CDLSHOOTINGSTAR_State**)st);}
static TA_RetCode t_CDLSHOOTINGSTAR(void*st,const double*v,void*const*out){return TA_CDLSHOOTINGSTAR_State((struct TA_CDLSHOOTINGSTAR_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLSHOOTINGSTAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLSHOOTINGSTAR_BatchState((struct TA_CDLSHOOTINGSTAR_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLSHOOTINGSTAR(void**st){return TA_CDLSHOOTINGSTAR_StateFree((struct TA_CDLSHOOTINGSTAR_State**)st);}
static TA_RetCode w_CDLSHOOTINGSTAR(void*st,FILE*f){return TA_CDLSHOOTINGSTAR_StateSave((struct TA_CDLSHOOTINGSTAR_State*)st,f);}
static TA_RetCode r_CDLSHOOTINGSTAR(void**st,FILE*f){return TA_CDLSHOOTINGSTAR_StateLoad((struct TA_CDLSHOOTINGSTAR_State**)st,f);}
static TA_RetCode b_CDLSHORTLINE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLSHORTLINE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLSHORTLINE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLSHORTLINE(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLSHORTLINE(const double*o){return TA_CDLSHORTLINE_Lookback();}
static TA_RetCode i_CDLSHORTLINE(void**st,const double*o){return TA_CDLSHORTLINE_StateInit((struct TA_CDLSHORTLINE_State**)st);}
static TA_RetCode t_CDLSHORTLINE(void*st,const double*v,void*const*out){return TA_CDLSHORTLINE_State((struct TA_CDLSHORTLINE_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLSHORTLINE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLSHORTLINE_BatchState((struct TA_CDLSHORTLINE_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLSHORTLINE(void**st){return TA_CDLSHORTLINE_StateFree((struct TA_CDLSHORTLINE_State**)st);}
static TA_RetCode w_CDLSHORTLINE(void*st,FILE*f){return TA_CDLSHORTLINE_StateSave((struct TA_CDLSHORTLINE_State*)st,f);}
static TA_RetCode r_CDLSHORTLINE(void**st,FILE*f){return TA_CDLSHORTLINE_StateLoad((struct TA_CDLSHORTLINE_State**)st,f);}
static TA_RetCode b_CDLSPINNINGTOP(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLSPINNINGTOP(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLSPINNINGTOP(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLSPINNINGTOP(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLSPINNINGTOP(const double*o){return TA_CDLSPINNINGTOP_Lookback();}
static TA_RetCode i_CDLSPINNINGTOP(void**st,const double*o){return TA_CDLSPINNINGTOP_StateInit((struct TA_CDLSPINNINGTOP_State**)st);}
static TA_RetCode t_CDLSPINNINGTOP(void*st,const double*v,void*const*out){return TA_CDLSPINNINGTOP_State((struct TA_CDLSPINNINGTOP_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLSPINNINGTOP(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLSPINNINGTOP_BatchState((struct TA_CDLSPINNINGTOP_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLSPINNINGTOP(void**st){return TA_CDLSPINNINGTOP_StateFree((struct TA_CDLSPINNINGTOP_State**)st);}
static TA_RetCode w_CDLSPINNINGTOP(void*st,FILE*f){return TA_CDLSPINNINGTOP_StateSave((struct TA_CDLSPINNINGTOP_State*)st,f);}
static TA_RetCode r_CDLSPINNINGTOP(void**st,FILE*f){return TA_CDLSPINNINGTOP_StateLoad((struct TA_CDLSPINNINGTOP_State**)st,f);}
static TA_RetCode b_CDLSTALLEDPATTERN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLSTALLEDPATTERN(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLSTALLEDPATTERN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLSTALLEDPATTERN(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLSTALLEDPATTERN(const double*o){return TA_CDLSTALLEDPATTERN_Lookback();}
static TA_RetCode i_CDLSTALLEDPATTERN(void**st,const double*o){return TA_CDLSTALLEDPATTERN_StateInit((struct TA_CDLSTALLEDPATTERN_State**)st);}
static TA_RetCode t_CDLSTALLEDPATTERN(void*st,const double*v,void*const*out){return TA_CDLSTALLEDPATTERN_State((struct TA_CDLSTALLEDPATTERN_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLSTALLEDPATTERN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLSTALLEDPATTERN_BatchState((struct TA_CDLSTALLEDPATTERN_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLSTALLEDPATTERN(void**st){return TA_CDLSTALLEDPATTERN_StateFree((struct TA_CDLSTALLEDPATTERN_State**)st);}
static TA_RetCode w_CDLSTALLEDPATTERN(void*st,FILE*f){return TA_CDLSTALLEDPATTERN_StateSave((struct TA_CDLSTALLEDPATTERN_State*)st,f);}
static TA_RetCode r_CDLSTALLEDPATTERN(void**st,FILE*f){return TA_CDLSTALLEDPATTERN_StateLoad((struct TA_CDLSTALLEDPATTERN_State**)st,f);}
static TA_RetCode b_CDLSTICKSANDWICH(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLSTICKSANDWICH(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLSTICKSANDWICH(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLSTICKSANDWICH(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLSTICKSANDWICH(const double*o){return TA_CDLSTICKSANDWICH_Lookback();}
static TA_RetCode i_CDLSTICKSANDWICH(void**st,const double*o){return TA_CDLSTICKSANDWICH_StateInit((struct TA_CDLSTICKSANDWICH_State**)st);}
static TA_RetCode t_CDLSTICKSANDWICH(void*st,const double*v,void*const*out){return TA_CDLSTICKSANDWICH_State((struct TA_CDLSTICKSANDWICH_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLSTICKSANDWICH(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLSTICKSANDWICH_BatchState((struct TA_CDLSTICKSANDWICH_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLSTICKSANDWICH(void**st){return TA_CDLSTICKSANDWICH_StateFree((struct TA_CDLSTICKSANDWICH_State**)st);}
static TA_RetCode w_CDLSTICKSANDWICH(void*st,FILE*f){return TA_CDLSTICKSANDWICH_StateSave((struct TA_CDLSTICKSANDWICH_State*)st,f);}
static TA_RetCode r_CDLSTICKSANDWICH(void**st,FILE*f){return TA_CDLSTICKSANDWICH_StateLoad((struct TA_CDLSTICKSANDWICH_State**)st,f);}
static TA_RetCode b_CDLTAKURI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLTAKURI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLTAKURI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLTAKURI(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLTAKURI(const double*o){return TA_CDLTAKURI_Lookback();}
static TA_RetCode i_CDLTAKURI(void**st,const double*o){return TA_CDLTAKURI_StateInit((struct TA_CDLTAKURI_State**)st);}
static TA_RetCode t_CDLTAKURI(void*st,const double*v,void*const*out){return TA_CDLTAKURI_State((struct TA_CDLTAKURI_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLTAKURI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLTAKURI_BatchState((struct TA_CDLTAKURI_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLTAKURI(void**st){return TA_CDLTAKURI_StateFree((struct TA_CDLTAKURI_State**)st);}
static TA_RetCode w_CDLTAKURI(void*st,FILE*f){return TA_CDLTAKURI_StateSave((struct TA_CDLTAKURI_State*)st,f);}
static TA_RetCode r_CDLTAKURI(void**st,FILE*f){return TA_CDLTAKURI_StateLoad((struct TA_CDLTAKURI_State**)st,f);}
static TA_RetCode b_CDLTASUKIGAP(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLTASUKIGAP(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLTASUKIGAP(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLTASUKIGAP(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLTASUKIGAP(const double*o){return TA_CDLTASUKIGAP_Lookback();}
static TA_RetCode i_CDLTASUKIGAP(void**st,const double*o){return TA_CDLTASUKIGAP_StateInit((struct TA_CDLTASUKIGAP_State**)st);}
static TA_RetCode t_CDLTASUKIGAP(void*st,const double*v,void*const*out){return TA_CDLTASUKIGAP_State((struct TA_CDLTASUKIGAP_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLTASUKIGAP(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLTASUKIGAP_BatchState((struct TA_CDLTASUKIGAP_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLTASUKIGAP(void**st){return TA_CDLTASUKIGAP_StateFree((struct TA_CDLTASUKIGAP_State**)st);}
static TA_RetCode w_CDLTASUKIGAP(void*st,FILE*f){return TA_CDLTASUKIGAP_StateSave((struct TA_CDLTASUKIGAP_State*)st,f);}
static TA_RetCode r_CDLTASUKIGAP(void**st,FILE*f){return TA_CDLTASUKIGAP_StateLoad((struct TA_CDLTASUKIGAP_State**)st,f);}
static TA_RetCode b_CDLTHRUSTING(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLTHRUSTING(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLTHRUSTING(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLTHRUSTING(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLTHRUSTING(const double*o){return TA_CDLTHRUSTING_Lookback();}
static TA_RetCode i_CDLTHRUSTING(void**st,const double*o){return TA_CDLTHRUSTING_StateInit((struct TA_CDLTHRUSTING_State**)st);}
static TA_RetCode t_CDLTHRUSTING(void*st,const double*v,void*const*out){return TA_CDLTHRUSTING_State((struct TA_CDLTHRUSTING_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLTHRUSTING(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLTHRUSTING_BatchState((struct TA_CDLTHRUSTING_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLTHRUSTING(void**st){return TA_CDLTHRUSTING_StateFree((struct TA_CDLTHRUSTING_State**)st);}
static TA_RetCode w_CDLTHRUSTING(void*st,FILE*f){return TA_CDLTHRUSTING_StateSave((struct TA_CDLTHRUSTING_State*)st,f);}
static TA_RetCode r_CDLTHRUSTING(void**st,FILE*f){return TA_CDLTHRUSTING_StateLoad((struct TA_CDLTHRUSTING_State**)st,f);}
static TA_RetCode b_CDLTRISTAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLTRISTAR(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLTRISTAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLTRISTAR(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLTRISTAR(const double*o){return TA_CDLTRISTAR_Lookback();}
static TA_RetCode i_CDLTRISTAR(void**st,const double*o){return TA_CDLTRISTAR_StateInit((struct TA_CDLTRISTAR_State**)st);}
static TA_RetCode t_CDLTRISTAR(void*st,const double*v,void*const*out){return TA_CDLTRISTAR_State((struct TA_CDLTRISTAR_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLTRISTAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLTRISTAR_BatchState((struct TA_CDLTRISTAR_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLTRISTAR(void**st){return TA_CDLTRISTAR_StateFree((struct TA_CDLTRISTAR_State**)st);}
static TA_RetCode w_CDLTRISTAR(void*st,FILE*f){return TA_CDLTRISTAR_StateSave((struct TA_CDLTRISTAR_State*)st,f);}
static TA_RetCode r_CDLTRISTAR(void**st,FILE*f){return TA_CDLTRISTAR_StateLoad((struct TA_CDLTRISTAR_State**)st,f);}
static TA_RetCode b_CDLUNIQUE3RIVER(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLUNIQUE3RIVER(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLUNIQUE3RIVER(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLUNIQUE3RIVER(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLUNIQUE3RIVER(const double*o){return TA_CDLUNIQUE3RIVER_Lookback();}
static TA_RetCode i_CDLUNIQUE3RIVER(void**st,const double*o){return TA_CDLUNIQUE3RIVER_StateInit((struct TA_CDLUNIQUE3RIVER_State**)st);}
static TA_RetCode t_CDLUNIQUE3RIVER(void*st,const double*v,void*const*out){return TA_CDLUNIQUE3RIVER_State((struct TA_CDLUNIQUE3RIVER_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLUNIQUE3RIVER(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLUNIQUE3RIVER_BatchState((struct TA_CDLUNIQUE3RIVER_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLUNIQUE3RIVER(void**st){return TA_CDLUNIQUE3RIVER_StateFree((struct TA_CDLUNIQUE3RIVER_State**)st);}
static TA_RetCode w_CDLUNIQUE3RIVER(void*st,FILE*f){return TA_CDLUNIQUE3RIVER_StateSave((struct TA_CDLUNIQUE3RIVER_State*)st,f);}
static TA_RetCode r_CDLUNIQUE3RIVER(void**st,FILE*f){return TA_CDLUNIQUE3RIVER_StateLoad((struct TA_CDLUNIQUE3RIVER_State**)st,f);}
static TA_RetCode b_CDLUPSIDEGAP2CROWS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLUPSIDEGAP2CROWS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLUPSIDEGAP2CROWS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLUPSIDEGAP2CROWS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLUPSIDEGAP2CROWS(const double*o){return TA_CDLUPSIDEGAP2CROWS_Lookback();}
static TA_RetCode i_CDLUPSIDEGAP2CROWS(void**st,const double*o){return TA_CDLUPSIDEGAP2CROWS_StateInit((struct TA_CDLUPSIDEGAP2CROWS_State**)st);}
static TA_RetCode t_CDLUPSIDEGAP2CROWS(void*st,const double*v,void*const*out){return TA_CDLUPSIDEGAP2CROWS_State((struct TA_CDLUPSIDEGAP2CROWS_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLUPSIDEGAP2CROWS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLUPSIDEGAP2CROWS_BatchState((struct TA_CDLUPSIDEGAP2CROWS_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLUPSIDEGAP2CROWS(void**st){return TA_CDLUPSIDEGAP2CROWS_StateFree((struct TA_CDLUPSIDEGAP2CROWS_State**)st);}
static TA_RetCode w_CDLUPSIDEGAP2CROWS(void*st,FILE*f){return TA_CDLUPSIDEGAP2CROWS_StateSave((struct TA_CDLUPSIDEGAP2CROWS_State*)st,f);}
static TA_RetCode r_CDLUPSIDEGAP2CROWS(void**st,FILE*f){return TA_CDLUPSIDEGAP2CROWS_StateLoad((struct TA_CDLUPSIDEGAP2CROWS_State**)st,f);}
static TA_RetCode b_CDLXSIDEGAP3METHODS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CDLXSIDEGAP3METHODS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode s_CDLXSIDEGAP3METHODS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CDLXSIDEGAP3METHODS(s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static int l_CDLXSIDEGAP3METHODS(const double*o){return TA_CDLXSIDEGAP3METHODS_Lookback();}
static TA_RetCode i_CDLXSIDEGAP3METHODS(void**st,const double*o){return TA_CDLXSIDEGAP3METHODS_StateInit((struct TA_CDLXSIDEGAP3METHODS_State**)st);}
static TA_RetCode t_CDLXSIDEGAP3METHODS(void*st,const double*v,void*const*out){return TA_CDLXSIDEGAP3METHODS_State((struct TA_CDLXSIDEGAP3METHODS_State*)st, v[0], v[1], v[2], v[3], (int*)out[0]);}
static TA_RetCode c_CDLXSIDEGAP3METHODS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CDLXSIDEGAP3METHODS_BatchState((struct TA_CDLXSIDEGAP3METHODS_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (int*)out[0]);}
static TA_RetCode f_CDLXSIDEGAP3METHODS(void**st){return TA_CDLXSIDEGAP3METHODS_StateFree((struct TA_CDLXSIDEGAP3METHODS_State**)st);}
static TA_RetCode w_CDLXSIDEGAP3METHODS(void*st,FILE*f){return TA_CDLXSIDEGAP3METHODS_StateSave((struct TA_CDLXSIDEGAP3METHODS_State*)st,f);}
static TA_RetCode r_CDLXSIDEGAP3METHODS(void**st,FILE*f){return TA_CDLXSIDEGAP3METHODS_StateLoad((struct TA_CDLXSIDEGAP3METHODS_State**)st,f);}
static TA_RetCode b_CEIL(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CEIL(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_CEIL(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CEIL(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_CEIL(const double*o){return TA_CEIL_Lookback();}
static TA_RetCode i_CEIL(void**st,const double*o){return TA_CEIL_StateInit((struct TA_CEIL_State**)st);}
static TA_RetCode t_CEIL(void*st,const double*v,void*const*out){return TA_CEIL_State((struct TA_CEIL_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_CEIL(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CEIL_BatchState((struct TA_CEIL_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_CEIL(void**st){return TA_CEIL_StateFree((struct TA_CEIL_State**)st);}
static TA_RetCode w_CEIL(void*st,FILE*f){return TA_CEIL_StateSave((struct TA_CEIL_State*)st,f);}
static TA_RetCode r_CEIL(void**st,FILE*f){return TA_CEIL_StateLoad((struct TA_CEIL_State**)st,f);}
static TA_RetCode b_CMO(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CMO(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_CMO(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CMO(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_CMO(const double*o){return TA_CMO_Lookback((int)o[0]);}
static TA_RetCode i_CMO(void**st,const double*o){return TA_CMO_StateInit((struct TA_CMO_State**)st, (int)o[0]);}
static TA_RetCode t_CMO(void*st,const double*v,void*const*out){return TA_CMO_State((struct TA_CMO_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_CMO(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CMO_BatchState((struct TA_CMO_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_CMO(void**st){return TA_CMO_StateFree((struct TA_CMO_State**)st);}
static TA_RetCode w_CMO(void*st,FILE*f){return TA_CMO_StateSave((struct TA_CMO_State*)st,f);}
static TA_RetCode r_CMO(void**st,FILE*f){return TA_CMO_StateLoad((struct TA_CMO_State**)st,f);}
static TA_RetCode b_CORREL(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_CORREL(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_CORREL(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_CORREL(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static int l_CORREL(const double*o){return TA_CORREL_Lookback((int)o[0]);}
static TA_RetCode i_CORREL(void**st,const double*o){return TA_CORREL_StateInit((struct TA_CORREL_State**)st, (int)o[0]);}
static TA_RetCode t_CORREL(void*st,const double*v,void*const*out){return TA_CORREL_State((struct TA_CORREL_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_CORREL(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_CORREL_BatchState((struct TA_CORREL_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_CORREL(void**st){return TA_CORREL_StateFree((struct TA_CORREL_State**)st);}
static TA_RetCode w_CORREL(void*st,FILE*f){return TA_CORREL_StateSave((struct TA_CORREL_State*)st,f);}
static TA_RetCode r_CORREL(void**st,FILE*f){return TA_CORREL_StateLoad((struct TA_CORREL_State**)st,f);}
static TA_RetCode b_COS(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_COS(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_COS(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_COS(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_COS(const double*o){return TA_COS_Lookback();}
static TA_RetCode i_COS(void**st,const double*o){return TA_COS_StateInit((struct TA_COS_State**)st);}
static TA_RetCode t_COS(void*st,const double*v,void*const*out){return TA_COS_State((struct TA_COS_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_COS(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_COS_BatchState((struct TA_COS_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_COS(void**st){return TA_COS_StateFree((struct TA_COS_State**)st);}
static TA_RetCode w_COS(void*st,FILE*f){return TA_COS_StateSave((struct TA_COS_State*)st,f);}
static TA_RetCode r_COS(void**st,FILE*f){return TA_COS_StateLoad((struct TA_COS_State**)st,f);}
static TA_RetCode b_COSH(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_COSH(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_COSH(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_COSH(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_COSH(const double*o){return TA_COSH_Lookback();}
static TA_RetCode i_COSH(void**st,const double*o){return TA_COSH_StateInit((struct TA_COSH_State**)st);}
static TA_RetCode t_COSH(void*st,const double*v,void*const*out){return TA_COSH_State((struct TA_COSH_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_COSH(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_COSH_BatchState((struct TA_COSH_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_COSH(void**st){return TA_COSH_StateFree((struct TA_COSH_State**)st);}
static TA_RetCode w_COSH(void*st,FILE*f){return TA_COSH_StateSave((struct TA_COSH_State*)st,f);}
static TA_RetCode r_COSH(void**st,FILE*f){return TA_COSH_StateLoad((struct TA_COSH_State**)st,f);}
static TA_RetCode b_DEMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_DEMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_DEMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_DEMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_DEMA(const double*o){return TA_DEMA_Lookback((int)o[0]);}
static TA_RetCode i_DEMA(void**st,const double*o){return TA_DEMA_StateInit((struct TA_DEMA_State**)st, (int)o[0]);}
static TA_RetCode t_DEMA(void*st,const double*v,void*const*out){return TA_DEMA_State((struct TA_DEMA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_DEMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_DEMA_BatchState((struct TA_DEMA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_DEMA(void**st){return TA_DEMA_StateFree((struct TA_DEMA_State**)st);}
static TA_RetCode w_DEMA(void*st,FILE*f){return TA_DEMA_StateSave((struct TA_DEMA_State*)st,f);}
static TA_RetCode r_DEMA(void**st,FILE*f){return TA_DEMA_StateLoad((struct TA_DEMA_State**)st,f);}
static TA_RetCode b_DIV(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_DIV(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_DIV(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_DIV(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_DIV(const double*o){return TA_DIV_Lookback();}
static TA_RetCode i_DIV(void**st,const double*o){return TA_DIV_StateInit((struct TA_DIV_State**)st);}
static TA_RetCode t_DIV(void*st,const double*v,void*const*out){return TA_DIV_State((struct TA_DIV_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_DIV(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_DIV_BatchState((struct TA_DIV_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_DIV(void**st){return TA_DIV_StateFree((struct TA_DIV_State**)st);}
static TA_RetCode w_DIV(void*st,FILE*f){return TA_DIV_StateSave((struct TA_DIV_State*)st,f);}
static TA_RetCode r_DIV(void**st,FILE*f){return TA_DIV_StateLoad((struct TA_DIV_State**)st,f);}
static TA_RetCode b_DX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_DX(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_DX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_DX(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_DX(const double*o){return TA_DX_Lookback((int)o[0]);}
static TA_RetCode i_DX(void**st,const double*o){return TA_DX_StateInit((struct TA_DX_State**)st, (int)o[0]);}
static TA_RetCode t_DX(void*st,const double*v,void*const*out){return TA_DX_State((struct TA_DX_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_DX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_DX_BatchState((struct TA_DX_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_DX(void**st){return TA_DX_StateFree((struct TA_DX_State**)st);}
static TA_RetCode w_DX(void*st,FILE*f){return TA_DX_StateSave((struct TA_DX_State*)st,f);}
static TA_RetCode r_DX(void**st,FILE*f){return TA_DX_StateLoad((struct TA_DX_State**)st,f);}
static TA_RetCode b_EMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_EMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_EMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_EMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_EMA(const double*o){return TA_EMA_Lookback((int)o[0]);}
static TA_RetCode i_EMA(void**st,const double*o){return TA_EMA_StateInit((struct TA_EMA_State**)st, (int)o[0]);}
static TA_RetCode t_EMA(void*st,const double*v,void*const*out){return TA_EMA_State((struct TA_EMA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_EMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_EMA_BatchState((struct TA_EMA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_EMA(void**st){return TA_EMA_StateFree((struct TA_EMA_State**)st);}
static TA_RetCode w_EMA(void*st,FILE*f){return TA_EMA_StateSave((struct TA_EMA_State*)st,f);}
static TA_RetCode r_EMA(void**st,FILE*f){return TA_EMA_StateLoad((struct TA_EMA_State**)st,f);}
static TA_RetCode b_EXP(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_EXP(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_EXP(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_EXP(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_EXP(const double*o){return TA_EXP_Lookback();}
static TA_RetCode i_EXP(void**st,const double*o){return TA_EXP_StateInit((struct TA_EXP_State**)st);}
static TA_RetCode t_EXP(void*st,const double*v,void*const*out){return TA_EXP_State((struct TA_EXP_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_EXP(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_EXP_BatchState((struct TA_EXP_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_EXP(void**st){return TA_EXP_StateFree((struct TA_EXP_State**)st);}
static TA_RetCode w_EXP(void*st,FILE*f){return TA_EXP_StateSave((struct TA_EXP_State*)st,f);}
static TA_RetCode r_EXP(void**st,FILE*f){return TA_EXP_StateLoad((struct TA_EXP_State**)st,f);}
static TA_RetCode b_FLOOR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_FLOOR(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_FLOOR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_FLOOR(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_FLOOR(const double*o){return TA_FLOOR_Lookback();}
static TA_RetCode i_FLOOR(void**st,const double*o){return TA_FLOOR_StateInit((struct TA_FLOOR_State**)st);}
static TA_RetCode t_FLOOR(void*st,const double*v,void*const*out){return TA_FLOOR_State((struct TA_FLOOR_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_FLOOR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_FLOOR_BatchState((struct TA_FLOOR_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_FLOOR(void**st){return TA_FLOOR_StateFree((struct TA_FLOOR_State**)st);}
static TA_RetCode w_FLOOR(void*st,FILE*f){return TA_FLOOR_StateSave((struct TA_FLOOR_State*)st,f);}
static TA_RetCode r_FLOOR(void**st,FILE*f){return TA_FLOOR_StateLoad((struct TA_FLOOR_State**)st,f);}
static TA_RetCode b_HT_DCPERIOD(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_HT_DCPERIOD(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_HT_DCPERIOD(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_HT_DCPERIOD(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_HT_DCPERIOD(const double*o){return TA_HT_DCPERIOD_Lookback();}
static TA_RetCode i_HT_DCPERIOD(void**st,const double*o){return TA_HT_DCPERIOD_StateInit((struct TA_HT_DCPERIOD_State**)st);}
static TA_RetCode t_HT_DCPERIOD(void*st,const double*v,void*const*out){return TA_HT_DCPERIOD_State((struct TA_HT_DCPERIOD_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_HT_DCPERIOD(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_HT_DCPERIOD_BatchState((struct TA_HT_DCPERIOD_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_HT_DCPERIOD(void**st){return TA_HT_DCPERIOD_StateFree((struct TA_HT_DCPERIOD_State**)st);}
static TA_RetCode w_HT_DCPERIOD(void*st,FILE*f){return TA_HT_DCPERIOD_StateSave((struct TA_HT_DCPERIOD_State*)st,f);}
static TA_RetCode r_HT_DCPERIOD(void**st,FILE*f){return TA_HT_DCPERIOD_StateLoad((struct TA_HT_DCPERIOD_State**)st,f);}
static TA_RetCode b_HT_DCPHASE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_HT_DCPHASE(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_HT_DCPHASE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_HT_DCPHASE(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_HT_DCPHASE(const double*o){return TA_HT_DCPHASE_Lookback();}
static TA_RetCode i_HT_DCPHASE(void**st,const double*o){return TA_HT_DCPHASE_StateInit((struct TA_HT_DCPHASE_State**)st);}
static TA_RetCode t_HT_DCPHASE(void*st,const double*v,void*const*out){return TA_HT_DCPHASE_State((struct TA_HT_DCPHASE_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_HT_DCPHASE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_HT_DCPHASE_BatchState((struct TA_HT_DCPHASE_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_HT_DCPHASE(void**st){return TA_HT_DCPHASE_StateFree((struct TA_HT_DCPHASE_State**)st);}
static TA_RetCode w_HT_DCPHASE(void*st,FILE*f){return TA_HT_DCPHASE_StateSave((struct TA_HT_DCPHASE_State*)st,f);}
static TA_RetCode r_HT_DCPHASE(void**st,FILE*f){return TA_HT_DCPHASE_StateLoad((struct TA_HT_DCPHASE_State**)st,f);}
static TA_RetCode b_HT_PHASOR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_HT_PHASOR(s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode s_HT_PHASOR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_HT_PHASOR(s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static int l_HT_PHASOR(const double*o){return TA_HT_PHASOR_Lookback();}
static TA_RetCode i_HT_PHASOR(void**st,const double*o){return TA_HT_PHASOR_StateInit((struct TA_HT_PHASOR_State**)st);}
static TA_RetCode t_HT_PHASOR(void*st,const double*v,void*const*out){return TA_HT_PHASOR_State((struct TA_HT_PHASOR_State*)st, v[0], (double*)out[0], (double*)out[1]);}
static TA_RetCode c_HT_PHASOR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_HT_PHASOR_BatchState((struct TA_HT_PHASOR_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode f_HT_PHASOR(void**st){return TA_HT_PHASOR_StateFree((struct TA_HT_PHASOR_State**)st);}
static TA_RetCode w_HT_PHASOR(void*st,FILE*f){return TA_HT_PHASOR_StateSave((struct TA_HT_PHASOR_State*)st,f);}
static TA_RetCode r_HT_PHASOR(void**st,FILE*f){return TA_HT_PHASOR_StateLoad((struct TA_HT_PHASOR_State**)st,f);}
static TA_RetCode b_HT_SINE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_HT_SINE(s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode s_HT_SINE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_HT_SINE(s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static int l_HT_SINE(const double*o){return TA_HT_SINE_Lookback();}
static TA_RetCode i_HT_SINE(void**st,const double*o){return TA_HT_SINE_StateInit((struct TA_HT_SINE_State**)st);}
static TA_RetCode t_HT_SINE(void*st,const double*v,void*const*out){return TA_HT_SINE_State((struct TA_HT_SINE_State*)st, v[0], (double*)out[0], (double*)out[1]);}
static TA_RetCode c_HT_SINE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_HT_SINE_BatchState((struct TA_HT_SINE_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode f_HT_SINE(void**st){return TA_HT_SINE_StateFree((struct TA_HT_SINE_State**)st);}
static TA_RetCode w_HT_SINE(void*st,FILE*f){return TA_HT_SINE_StateSave((struct TA_HT_SINE_State*)st,f);}
static TA_RetCode r_HT_SINE(void**st,FILE*f){return TA_HT_SINE_StateLoad((struct TA_HT_SINE_State**)st,f);}
static TA_RetCode b_HT_TRENDLINE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_HT_TRENDLINE(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_HT_TRENDLINE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_HT_TRENDLINE(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_HT_TRENDLINE(const double*o){return TA_HT_TRENDLINE_Lookback();}
static TA_RetCode i_HT_TRENDLINE(void**st,const double*o){return TA_HT_TRENDLINE_StateInit((struct TA_HT_TRENDLINE_State**)st);}
static TA_RetCode t_HT_TRENDLINE(void*st,const double*v,void*const*out){return TA_HT_TRENDLINE_State((struct TA_HT_TRENDLINE_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_HT_TRENDLINE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_HT_TRENDLINE_BatchState((struct TA_HT_TRENDLINE_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_HT_TRENDLINE(void**st){return TA_HT_TRENDLINE_StateFree((struct TA_HT_TRENDLINE_State**)st);}
static TA_RetCode w_HT_TRENDLINE(void*st,FILE*f){return TA_HT_TRENDLINE_StateSave((struct TA_HT_TRENDLINE_State*)st,f);}
static TA_RetCode r_HT_TRENDLINE(void**st,FILE*f){return TA_HT_TRENDLINE_StateLoad((struct TA_HT_TRENDLINE_State**)st,f);}
static TA_RetCode b_HT_TRENDMODE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_HT_TRENDMODE(s, e, in[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_HT_TRENDMODE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_HT_TRENDMODE(s, e, in[0], bg, nb, (int*)out[0]);}
static int l_HT_TRENDMODE(const double*o){return TA_HT_TRENDMODE_Lookback();}
static TA_RetCode i_HT_TRENDMODE(void**st,const double*o){return TA_HT_TRENDMODE_StateInit((struct TA_HT_TRENDMODE_State**)st);}
static TA_RetCode t_HT_TRENDMODE(void*st,const double*v,void*const*out){return TA_HT_TRENDMODE_State((struct TA_HT_TRENDMODE_State*)st, v[0], (int*)out[0]);}
static TA_RetCode c_HT_TRENDMODE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_HT_TRENDMODE_BatchState((struct TA_HT_TRENDMODE_State*)st, s, e, in[0], bg, nb, (int*)out[0]);}
static TA_RetCode f_HT_TRENDMODE(void**st){return TA_HT_TRENDMODE_StateFree((struct TA_HT_TRENDMODE_State**)st);}
static TA_RetCode w_HT_TRENDMODE(void*st,FILE*f){return TA_HT_TRENDMODE_StateSave((struct TA_HT_TRENDMODE_State*)st,f);}
static TA_RetCode r_HT_TRENDMODE(void**st,FILE*f){return TA_HT_TRENDMODE_StateLoad((struct TA_HT_TRENDMODE_State**)st,f);}
static TA_RetCode b_IMI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_IMI(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_IMI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_IMI(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static int l_IMI(const double*o){return TA_IMI_Lookback((int)o[0]);}
static TA_RetCode i_IMI(void**st,const double*o){return TA_IMI_StateInit((struct TA_IMI_State**)st, (int)o[0]);}
static TA_RetCode t_IMI(void*st,const double*v,void*const*out){return TA_IMI_State((struct TA_IMI_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_IMI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_IMI_BatchState((struct TA_IMI_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_IMI(void**st){return TA_IMI_StateFree((struct TA_IMI_State**)st);}
static TA_RetCode w_IMI(void*st,FILE*f){return TA_IMI_StateSave((struct TA_IMI_State*)st,f);}
static TA_RetCode r_IMI(void**st,FILE*f){return TA_IMI_StateLoad((struct TA_IMI_State**)st,f);}
static TA_RetCode b_KAMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_KAMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_KAMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_KAMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_KAMA(const double*o){return TA_KAMA_Lookback((int)o[0]);}
static TA_RetCode i_KAMA(void**st,const double*o){return TA_KAMA_StateInit((struct TA_KAMA_State**)st, (int)o[0]);}
static TA_RetCode t_KAMA(void*st,const double*v,void*const*out){return TA_KAMA_State((struct TA_KAMA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_KAMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_KAMA_BatchState((struct TA_KAMA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_KAMA(void**st){return TA_KAMA_StateFree((struct TA_KAMA_State**)st);}
static TA_RetCode w_KAMA(void*st,FILE*f){return TA_KAMA_StateSave((struct TA_KAMA_State*)st,f);}
static TA_RetCode r_KAMA(void**st,FILE*f){return TA_KAMA_StateLoad((struct TA_KAMA_State**)st,f);}
static TA_RetCode b_LINEARREG(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_LINEARREG(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_LINEARREG(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_LINEARREG(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_LINEARREG(const double*o){return TA_LINEARREG_Lookback((int)o[0]);}
static TA_RetCode i_LINEARREG(void**st,const double*o){return TA_LINEARREG_StateInit((struct TA_LINEARREG_State**)st, (int)o[0]);}
static TA_RetCode t_LINEARREG(void*st,const double*v,void*const*out){return TA_LINEARREG_State((struct TA_LINEARREG_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_LINEARREG(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_LINEARREG_BatchState((struct TA_LINEARREG_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_LINEARREG(void**st){return TA_LINEARREG_StateFree((struct TA_LINEARREG_State**)st);}
static TA_RetCode w_LINEARREG(void*st,FILE*f){return TA_LINEARREG_StateSave((struct TA_LINEARREG_State*)st,f);}
static TA_RetCode r_LINEARREG(void**st,FILE*f){return TA_LINEARREG_StateLoad((struct TA_LINEARREG_State**)st,f);}
static TA_RetCode b_LINEARREG_ANGLE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_LINEARREG_ANGLE(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_LINEARREG_ANGLE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_LINEARREG_ANGLE(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_LINEARREG_ANGLE(const double*o){return TA_LINEARREG_ANGLE_Lookback((int)o[0]);}
static TA_RetCode i_LINEARREG_ANGLE(void**st,const double*o){return TA_LINEARREG_ANGLE_StateInit((struct TA_LINEARREG_ANGLE_State**)st, (int)o[0]);}
static TA_RetCode t_LINEARREG_ANGLE(void*st,const double*v,void*const*out){return TA_LINEARREG_ANGLE_State((struct TA_LINEARREG_ANGLE_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_LINEARREG_ANGLE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_LINEARREG_ANGLE_BatchState((struct TA_LINEARREG_ANGLE_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_LINEARREG_ANGLE(void**st){return TA_LINEARREG_ANGLE_StateFree((struct TA_LINEARREG_ANGLE_State**)st);}
static TA_RetCode w_LINEARREG_ANGLE(void*st,FILE*f){return TA_LINEARREG_ANGLE_StateSave((struct TA_LINEARREG_ANGLE_State*)st,f);}
static TA_RetCode r_LINEARREG_ANGLE(void**st,FILE*f){return TA_LINEARREG_ANGLE_StateLoad((struct TA_LINEARREG_ANGLE_State**)st,f);}
static TA_RetCode b_LINEARREG_INTERCEPT(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_LINEARREG_INTERCEPT(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_LINEARREG_INTERCEPT(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_LINEARREG_INTERCEPT(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_LINEARREG_INTERCEPT(const double*o){return TA_LINEARREG_INTERCEPT_Lookback((int)o[0]);}
static TA_RetCode i_LINEARREG_INTERCEPT(void**st,const double*o){return TA_LINEARREG_INTERCEPT_StateInit((struct TA_LINEARREG_INTERCEPT_State**)st, (int)o[0]);}
static TA_RetCode t_LINEARREG_INTERCEPT(void*st,const double*v,void*const*out){return TA_LINEARREG_INTERCEPT_State((struct TA_LINEARREG_INTERCEPT_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_LINEARREG_INTERCEPT(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_LINEARREG_INTERCEPT_BatchState((struct TA_LINEARREG_INTERCEPT_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_LINEARREG_INTERCEPT(void**st){return TA_LINEARREG_INTERCEPT_StateFree((struct TA_LINEARREG_INTERCEPT_State**)st);}
static TA_RetCode w_LINEARREG_INTERCEPT(void*st,FILE*f){return TA_LINEARREG_INTERCEPT_StateSave((struct TA_LINEARREG_INTERCEPT_State*)st,f);}
static TA_RetCode r_LINEARREG_INTERCEPT(void**st,FILE*f){return TA_LINEARREG_INTERCEPT_StateLoad((struct TA_LINEARREG_INTERCEPT_State**)st,f);}
static TA_RetCode b_LINEARREG_SLOPE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_LINEARREG_SLOPE(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_LINEARREG_SLOPE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_LINEARREG_SLOPE(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_LINEARREG_SLOPE(const double*o){return TA_LINEARREG_SLOPE_Lookback((int)o[0]);}
static TA_RetCode i_LINEARREG_SLOPE(void**st,const double*o){return TA_LINEARREG_SLOPE_StateInit((struct TA_LINEARREG_SLOPE_State**)st, (int)o[0]);}
static TA_RetCode t_LINEARREG_SLOPE(void*st,const double*v,void*const*out){return TA_LINEARREG_SLOPE_State((struct TA_LINEARREG_SLOPE_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_LINEARREG_SLOPE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_LINEARREG_SLOPE_BatchState((struct TA_LINEARREG_SLOPE_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_LINEARREG_SLOPE(void**st){return TA_LINEARREG_SLOPE_StateFree((struct TA_LINEARREG_SLOPE_State**)st);}
static TA_RetCode w_LINEARREG_SLOPE(void*st,FILE*f){return TA_LINEARREG_SLOPE_StateSave((struct TA_LINEARREG_SLOPE_State*)st,f);}
static TA_RetCode r_LINEARREG_SLOPE(void**st,FILE*f){return TA_LINEARREG_SLOPE_StateLoad((struct TA_LINEARREG_SLOPE_State**)st,f);}
static TA_RetCode b_LN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_LN(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_LN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_LN(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_LN(const double*o){return TA_LN_Lookback();}
static TA_RetCode i_LN(void**st,const double*o){return TA_LN_StateInit((struct TA_LN_State**)st);}
static TA_RetCode t_LN(void*st,const double*v,void*const*out){return TA_LN_State((struct TA_LN_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_LN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_LN_BatchState((struct TA_LN_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_LN(void**st){return TA_LN_StateFree((struct TA_LN_State**)st);}
static TA_RetCode w_LN(void*st,FILE*f){return TA_LN_StateSave((struct TA_LN_State*)st,f);}
static TA_RetCode r_LN(void**st,FILE*f){return TA_LN_StateLoad((struct TA_LN_State**)st,f);}
static TA_RetCode b_LOG10(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_LOG10(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_LOG10(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_LOG10(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_LOG10(const double*o){return TA_LOG10_Lookback();}
static TA_RetCode i_LOG10(void**st,const double*o){return TA_LOG10_StateInit((struct TA_LOG10_State**)st);}
static TA_RetCode t_LOG10(void*st,const double*v,void*const*out){return TA_LOG10_State((struct TA_LOG10_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_LOG10(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_LOG10_BatchState((struct TA_LOG10_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_LOG10(void**st){return TA_LOG10_StateFree((struct TA_LOG10_State**)st);}
static TA_RetCode w_LOG10(void*st,FILE*f){return TA_LOG10_StateSave((struct TA_LOG10_State*)st,f);}
static TA_RetCode r_LOG10(void**st,FILE*f){return TA_LOG10_StateLoad((struct TA_LOG10_State**)st,f);}
static TA_RetCode b_MA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MA(s, e, in[0], (int)o[0], (TA_MAType)(int)o[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_MA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MA(s, e, in[0], (int)o[0], (TA_MAType)(int)o[1], bg, nb, (double*)out[0]);}
static int l_MA(const double*o){return TA_MA_Lookback((int)o[0], (TA_MAType)(int)o[1]);}
static TA_RetCode i_MA(void**st,const double*o){return TA_MA_StateInit((struct TA_MA_State**)st, (int)o[0], (TA_MAType)(int)o[1]);}
static TA_RetCode t_MA(void*st,const double*v,void*const*out){return TA_MA_State((struct TA_MA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_MA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MA_BatchState((struct TA_MA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_MA(void**st){return TA_MA_StateFree((struct TA_MA_State**)st);}
static TA_RetCode w_MA(void*st,FILE*f){return TA_MA_StateSave((struct TA_MA_State*)st,f);}
static TA_RetCode r_MA(void**st,FILE*f){return TA_MA_StateLoad((struct TA_MA_State**)st,f);}
static TA_RetCode b_MACD(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MACD(s, e, in[0], (int)o[0], (int)o[1], (int)o[2], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode s_MACD(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MACD(s, e, in[0], (int)o[0], (int)o[1], (int)o[2], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static int l_MACD(const double*o){return TA_MACD_Lookback((int)o[0], (int)o[1], (int)o[2]);}
static TA_RetCode i_MACD(void**st,const double*o){return TA_MACD_StateInit((struct TA_MACD_State**)st, (int)o[0], (int)o[1], (int)o[2]);}
static TA_RetCode t_MACD(void*st,const double*v,void*const*out){return TA_MACD_State((struct TA_MACD_State*)st, v[0], (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode c_MACD(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MACD_BatchState((struct TA_MACD_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode f_MACD(void**st){return TA_MACD_StateFree((struct TA_MACD_State**)st);}
static TA_RetCode w_MACD(void*st,FILE*f){return TA_MACD_StateSave((struct TA_MACD_State*)st,f);}
static TA_RetCode r_MACD(void**st,FILE*f){return TA_MACD_StateLoad((struct TA_MACD_State**)st,f);}
static TA_RetCode b_MACDEXT(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MACDEXT(s, e, in[0], (int)o[0], (TA_MAType)(int)o[1], (int)o[2], (TA_MAType)(int)o[3], (int)o[4], (TA_MAType)(int)o[5], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode s_MACDEXT(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MACDEXT(s, e, in[0], (int)o[0], (TA_MAType)(int)o[1], (int)o[2], (TA_MAType)(int)o[3], (int)o[4], (TA_MAType)(int)o[5], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static int l_MACDEXT(const double*o){return TA_MACDEXT_Lookback((int)o[0], (TA_MAType)(int)o[1], (int)o[2], (TA_MAType)(int)o[3], (int)o[4], (TA_MAType)(int)o[5]);}
static TA_RetCode i_MACDEXT(void**st,const double*o){return TA_MACDEXT_StateInit((struct TA_MACDEXT_State**)st, (int)o[0], (TA_MAType)(int)o[1], (int)o[2], (TA_MAType)(int)o[3], (int)o[4], (TA_MAType)(int)o[5]);}
static TA_RetCode t_MACDEXT(void*st,const double*v,void*const*out){return TA_MACDEXT_State((struct TA_MACDEXT_State*)st, v[0], (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode c_MACDEXT(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MACDEXT_BatchState((struct TA_MACDEXT_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode f_MACDEXT(void**st){return TA_MACDEXT_StateFree((struct TA_MACDEXT_State**)st);}
static TA_RetCode w_MACDEXT(void*st,FILE*f){return TA_MACDEXT_StateSave((struct TA_MACDEXT_State*)st,f);}
static TA_RetCode r_MACDEXT(void**st,FILE*f){return TA_MACDEXT_StateLoad((struct TA_MACDEXT_State**)st,f);}
static TA_RetCode b_MACDFIX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MACDFIX(s, e, in[0], (int)o[0], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode s_MACDFIX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MACDFIX(s, e, in[0], (int)o[0], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static int l_MACDFIX(const double*o){return TA_MACDFIX_Lookback((int)o[0]);}
static TA_RetCode i_MACDFIX(void**st,const double*o){return TA_MACDFIX_StateInit((struct TA_MACDFIX_State**)st, (int)o[0]);}
static TA_RetCode t_MACDFIX(void*st,const double*v,void*const*out){return TA_MACDFIX_State((struct TA_MACDFIX_State*)st, v[0], (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode c_MACDFIX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MACDFIX_BatchState((struct TA_MACDFIX_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1], (double*)out[2]);}
static TA_RetCode f_MACDFIX(void**st){return TA_MACDFIX_StateFree((struct TA_MACDFIX_State**)st);}
static TA_RetCode w_MACDFIX(void*st,FILE*f){return TA_MACDFIX_StateSave((struct TA_MACDFIX_State*)st,f);}
static TA_RetCode r_MACDFIX(void**st,FILE*f){return TA_MACDFIX_StateLoad((struct TA_MACDFIX_State**)st,f);}
static TA_RetCode b_MAMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MAMA(s, e, in[0], o[0], o[1], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode s_MAMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MAMA(s, e, in[0], o[0], o[1], bg, nb, (double*)out[0], (double*)out[1]);}
static int l_MAMA(const double*o){return TA_MAMA_Lookback(o[0], o[1]);}
static TA_RetCode i_MAMA(void**st,const double*o){return TA_MAMA_StateInit((struct TA_MAMA_State**)st, o[0], o[1]);}
static TA_RetCode t_MAMA(void*st,const double*v,void*const*out){return TA_MAMA_State((struct TA_MAMA_State*)st, v[0], (double*)out[0], (double*)out[1]);}
static TA_RetCode c_MAMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MAMA_BatchState((struct TA_MAMA_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode f_MAMA(void**st){return TA_MAMA_StateFree((struct TA_MAMA_State**)st);}
static TA_RetCode w_MAMA(void*st,FILE*f){return TA_MAMA_StateSave((struct TA_MAMA_State*)st,f);}
static TA_RetCode r_MAMA(void**st,FILE*f){return TA_MAMA_StateLoad((struct TA_MAMA_State**)st,f);}
static TA_RetCode b_MAVP(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MAVP(s, e, in[0], in[1], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], bg, nb, (double*)out[0]);}
static TA_RetCode s_MAVP(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MAVP(s, e, in[0], in[1], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], bg, nb, (double*)out[0]);}
static int l_MAVP(const double*o){return TA_MAVP_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode i_MAVP(void**st,const double*o){return TA_MAVP_StateInit((struct TA_MAVP_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode t_MAVP(void*st,const double*v,void*const*out){return TA_MAVP_State((struct TA_MAVP_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_MAVP(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MAVP_BatchState((struct TA_MAVP_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_MAVP(void**st){return TA_MAVP_StateFree((struct TA_MAVP_State**)st);}
static TA_RetCode w_MAVP(void*st,FILE*f){return TA_MAVP_StateSave((struct TA_MAVP_State*)st,f);}
static TA_RetCode r_MAVP(void**st,FILE*f){return TA_MAVP_StateLoad((struct TA_MAVP_State**)st,f);}
static TA_RetCode b_MAX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MAX(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_MAX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MAX(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_MAX(const double*o){return TA_MAX_Lookback((int)o[0]);}
static TA_RetCode i_MAX(void**st,const double*o){return TA_MAX_StateInit((struct TA_MAX_State**)st, (int)o[0]);}
static TA_RetCode t_MAX(void*st,const double*v,void*const*out){return TA_MAX_State((struct TA_MAX_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_MAX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MAX_BatchState((struct TA_MAX_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_MAX(void**st){return TA_MAX_StateFree((struct TA_MAX_State**)st);}
static TA_RetCode w_MAX(void*st,FILE*f){return TA_MAX_StateSave((struct TA_MAX_State*)st,f);}
static TA_RetCode r_MAX(void**st,FILE*f){return TA_MAX_StateLoad((struct TA_MAX_State**)st,f);}
static TA_RetCode b_MAXINDEX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MAXINDEX(s, e, in[0], (int)o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_MAXINDEX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MAXINDEX(s, e, in[0], (int)o[0], bg, nb, (int*)out[0]);}
static int l_MAXINDEX(const double*o){return TA_MAXINDEX_Lookback((int)o[0]);}
static TA_RetCode i_MAXINDEX(void**st,const double*o){return TA_MAXINDEX_StateInit((struct TA_MAXINDEX_State**)st, (int)o[0]);}
static TA_RetCode t_MAXINDEX(void*st,const double*v,void*const*out){return TA_MAXINDEX_State((struct TA_MAXINDEX_State*)st, v[0], (int*)out[0]);}
static TA_RetCode c_MAXINDEX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MAXINDEX_BatchState((struct TA_MAXINDEX_State*)st, s, e, in[0], bg, nb, (int*)out[0]);}
static TA_RetCode f_MAXINDEX(void**st){return TA_MAXINDEX_StateFree((struct TA_MAXINDEX_State**)st);}
static TA_RetCode w_MAXINDEX(void*st,FILE*f){return TA_MAXINDEX_StateSave((struct TA_MAXINDEX_State*)st,f);}
static TA_RetCode r_MAXINDEX(void**st,FILE*f){return TA_MAXINDEX_StateLoad((struct TA_MAXINDEX_State**)st,f);}
static TA_RetCode b_MEDPRICE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MEDPRICE(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_MEDPRICE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MEDPRICE(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_MEDPRICE(const double*o){return TA_MEDPRICE_Lookback();}
static TA_RetCode i_MEDPRICE(void**st,const double*o){return TA_MEDPRICE_StateInit((struct TA_MEDPRICE_State**)st);}
static TA_RetCode t_MEDPRICE(void*st,const double*v,void*const*out){return TA_MEDPRICE_State((struct TA_MEDPRICE_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_MEDPRICE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MEDPRICE_BatchState((struct TA_MEDPRICE_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_MEDPRICE(void**st){return TA_MEDPRICE_StateFree((struct TA_MEDPRICE_State**)st);}
static TA_RetCode w_MEDPRICE(void*st,FILE*f){return TA_MEDPRICE_StateSave((struct TA_MEDPRICE_State*)st,f);}
static TA_RetCode r_MEDPRICE(void**st,FILE*f){return TA_MEDPRICE_StateLoad((struct TA_MEDPRICE_State**)st,f);}
static TA_RetCode b_MFI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MFI(s, e, in[0], in[1], in[2], in[3], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_MFI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MFI(s, e, in[0], in[1], in[2], in[3], (int)o[0], bg, nb, (double*)out[0]);}
static int l_MFI(const double*o){return TA_MFI_Lookback((int)o[0]);}
static TA_RetCode i_MFI(void**st,const double*o){return TA_MFI_StateInit((struct TA_MFI_State**)st, (int)o[0]);}
static TA_RetCode t_MFI(void*st,const double*v,void*const*out){return TA_MFI_State((struct TA_MFI_State*)st, v[0], v[1], v[2], v[3], (double*)out[0]);}
static TA_RetCode c_MFI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MFI_BatchState((struct TA_MFI_State*)st, s, e, in[0], in[1], in[2], in[3], bg, nb, (double*)out[0]);}
static TA_RetCode f_MFI(void**st){return TA_MFI_StateFree((struct TA_MFI_State**)st);}
static TA_RetCode w_MFI(void*st,FILE*f){return TA_MFI_StateSave((struct TA_MFI_State*)st,f);}
static TA_RetCode r_MFI(void**st,FILE*f){return TA_MFI_StateLoad((struct TA_MFI_State**)st,f);}
static TA_RetCode b_MIDPOINT(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MIDPOINT(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_MIDPOINT(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MIDPOINT(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_MIDPOINT(const double*o){return TA_MIDPOINT_Lookback((int)o[0]);}
static TA_RetCode i_MIDPOINT(void**st,const double*o){return TA_MIDPOINT_StateInit((struct TA_MIDPOINT_State**)st, (int)o[0]);}
static TA_RetCode t_MIDPOINT(void*st,const double*v,void*const*out){return TA_MIDPOINT_State((struct TA_MIDPOINT_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_MIDPOINT(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MIDPOINT_BatchState((struct TA_MIDPOINT_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_MIDPOINT(void**st){return TA_MIDPOINT_StateFree((struct TA_MIDPOINT_State**)st);}
static TA_RetCode w_MIDPOINT(void*st,FILE*f){return TA_MIDPOINT_StateSave((struct TA_MIDPOINT_State*)st,f);}
static TA_RetCode r_MIDPOINT(void**st,FILE*f){return TA_MIDPOINT_StateLoad((struct TA_MIDPOINT_State**)st,f);}
static TA_RetCode b_MIDPRICE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MIDPRICE(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_MIDPRICE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MIDPRICE(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static int l_MIDPRICE(const double*o){return TA_MIDPRICE_Lookback((int)o[0]);}
static TA_RetCode i_MIDPRICE(void**st,const double*o){return TA_MIDPRICE_StateInit((struct TA_MIDPRICE_State**)st, (int)o[0]);}
static TA_RetCode t_MIDPRICE(void*st,const double*v,void*const*out){return TA_MIDPRICE_State((struct TA_MIDPRICE_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_MIDPRICE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MIDPRICE_BatchState((struct TA_MIDPRICE_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_MIDPRICE(void**st){return TA_MIDPRICE_StateFree((struct TA_MIDPRICE_State**)st);}
static TA_RetCode w_MIDPRICE(void*st,FILE*f){return TA_MIDPRICE_StateSave((struct TA_MIDPRICE_State*)st,f);}
static TA_RetCode r_MIDPRICE(void**st,FILE*f){return TA_MIDPRICE_StateLoad((struct TA_MIDPRICE_State**)st,f);}
static TA_RetCode b_MIN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MIN(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_MIN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MIN(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_MIN(const double*o){return TA_MIN_Lookback((int)o[0]);}
static TA_RetCode i_MIN(void**st,const double*o){return TA_MIN_StateInit((struct TA_MIN_State**)st, (int)o[0]);}
static TA_RetCode t_MIN(void*st,const double*v,void*const*out){return TA_MIN_State((struct TA_MIN_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_MIN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MIN_BatchState((struct TA_MIN_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_MIN(void**st){return TA_MIN_StateFree((struct TA_MIN_State**)st);}
static TA_RetCode w_MIN(void*st,FILE*f){return TA_MIN_StateSave((struct TA_MIN_State*)st,f);}
static TA_RetCode r_MIN(void**st,FILE*f){return TA_MIN_StateLoad((struct TA_MIN_State**)st,f);}
static TA_RetCode b_MININDEX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MININDEX(s, e, in[0], (int)o[0], bg, nb, (int*)out[0]);}
static TA_RetCode s_MININDEX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MININDEX(s, e, in[0], (int)o[0], bg, nb, (int*)out[0]);}
static int l_MININDEX(const double*o){return TA_MININDEX_Lookback((int)o[0]);}
static TA_RetCode i_MININDEX(void**st,const double*o){return TA_MININDEX_StateInit((struct TA_MININDEX_State**)st, (int)o[0]);}
static TA_RetCode t_MININDEX(void*st,const double*v,void*const*out){return TA_MININDEX_State((struct TA_MININDEX_State*)st, v[0], (int*)out[0]);}
static TA_RetCode c_MININDEX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MININDEX_BatchState((struct TA_MININDEX_State*)st, s, e, in[0], bg, nb, (int*)out[0]);}
static TA_RetCode f_MININDEX(void**st){return TA_MININDEX_StateFree((struct TA_MININDEX_State**)st);}
static TA_RetCode w_MININDEX(void*st,FILE*f){return TA_MININDEX_StateSave((struct TA_MININDEX_State*)st,f);}
static TA_RetCode r_MININDEX(void**st,FILE*f){return TA_MININDEX_StateLoad((struct TA_MININDEX_State**)st,f);}
static TA_RetCode b_MINMAX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MINMAX(s, e, in[0], (int)o[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode s_MINMAX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MINMAX(s, e, in[0], (int)o[0], bg, nb, (double*)out[0], (double*)out[1]);}
static int l_MINMAX(const double*o){return TA_MINMAX_Lookback((int)o[0]);}
static TA_RetCode i_MINMAX(void**st,const double*o){return TA_MINMAX_StateInit((struct TA_MINMAX_State**)st, (int)o[0]);}
static TA_RetCode t_MINMAX(void*st,const double*v,void*const*out){return TA_MINMAX_State((struct TA_MINMAX_State*)st, v[0], (double*)out[0], (double*)out[1]);}
static TA_RetCode c_MINMAX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MINMAX_BatchState((struct TA_MINMAX_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode f_MINMAX(void**st){return TA_MINMAX_StateFree((struct TA_MINMAX_State**)st);}
static TA_RetCode w_MINMAX(void*st,FILE*f){return TA_MINMAX_StateSave((struct TA_MINMAX_State*)st,f);}
static TA_RetCode r_MINMAX(void**st,FILE*f){return TA_MINMAX_StateLoad((struct TA_MINMAX_State**)st,f);}
static TA_RetCode b_MINMAXINDEX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MINMAXINDEX(s, e, in[0], (int)o[0], bg, nb, (int*)out[0], (int*)out[1]);}
static TA_RetCode s_MINMAXINDEX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MINMAXINDEX(s, e, in[0], (int)o[0], bg, nb, (int*)out[0], (int*)out[1]);}
static int l_MINMAXINDEX(const double*o){return TA_MINMAXINDEX_Lookback((int)o[0]);}
static TA_RetCode i_MINMAXINDEX(void**st,const double*o){return TA_MINMAXINDEX_StateInit((struct TA_MINMAXINDEX_State**)st, (int)o[0]);}
static TA_RetCode t_MINMAXINDEX(void*st,const double*v,void*const*out){return TA_MINMAXINDEX_State((struct TA_MINMAXINDEX_State*)st, v[0], (int*)out[0], (int*)out[1]);}
static TA_RetCode c_MINMAXINDEX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MINMAXINDEX_BatchState((struct TA_MINMAXINDEX_State*)st, s, e, in[0], bg, nb, (int*)out[0], (int*)out[1]);}
static TA_RetCode f_MINMAXINDEX(void**st){return TA_MINMAXINDEX_StateFree((struct TA_MINMAXINDEX_State**)st);}
static TA_RetCode w_MINMAXINDEX(void*st,FILE*f){return TA_MINMAXINDEX_StateSave((struct TA_MINMAXINDEX_State*)st,f);}
static TA_RetCode r_MINMAXINDEX(void**st,FILE*f){return TA_MINMAXINDEX_StateLoad((struct TA_MINMAXINDEX_State**)st,f);}
static TA_RetCode b_MINUS_DI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MINUS_DI(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_MINUS_DI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MINUS_DI(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_MINUS_DI(const double*o){return TA_MINUS_DI_Lookback((int)o[0]);}
static TA_RetCode i_MINUS_DI(void**st,const double*o){return TA_MINUS_DI_StateInit((struct TA_MINUS_DI_State**)st, (int)o[0]);}
static TA_RetCode t_MINUS_DI(void*st,const double*v,void*const*out){return TA_MINUS_DI_State((struct TA_MINUS_DI_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_MINUS_DI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MINUS_DI_BatchState((struct TA_MINUS_DI_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_MINUS_DI(void**st){return TA_MINUS_DI_StateFree((struct TA_MINUS_DI_State**)st);}
static TA_RetCode w_MINUS_DI(void*st,FILE*f){return TA_MINUS_DI_StateSave((struct TA_MINUS_DI_State*)st,f);}
static TA_RetCode r_MINUS_DI(void**st,FILE*f){return TA_MINUS_DI_StateLoad((struct TA_MINUS_DI_State**)st,f);}
static TA_RetCode b_MINUS_DM(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MINUS_DM(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_MINUS_DM(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MINUS_DM(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static int l_MINUS_DM(const double*o){return TA_MINUS_DM_Lookback((int)o[0]);}
static TA_RetCode i_MINUS_DM(void**st,const double*o){return TA_MINUS_DM_StateInit((struct TA_MINUS_DM_State**)st, (int)o[0]);}
static TA_RetCode t_MINUS_DM(void*st,const double*v,void*const*out){return TA_MINUS_DM_State((struct TA_MINUS_DM_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_MINUS_DM(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MINUS_DM_BatchState((struct TA_MINUS_DM_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_MINUS_DM(void**st){return TA_MINUS_DM_StateFree((struct TA_MINUS_DM_State**)st);}
static TA_RetCode w_MINUS_DM(void*st,FILE*f){return TA_MINUS_DM_StateSave((struct TA_MINUS_DM_State*)st,f);}
static TA_RetCode r_MINUS_DM(void**st,FILE*f){return TA_MINUS_DM_StateLoad((struct TA_MINUS_DM_State**)st,f);}
static TA_RetCode b_MOM(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MOM(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_MOM(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MOM(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_MOM(const double*o){return TA_MOM_Lookback((int)o[0]);}
static TA_RetCode i_MOM(void**st,const double*o){return TA_MOM_StateInit((struct TA_MOM_State**)st, (int)o[0]);}
static TA_RetCode t_MOM(void*st,const double*v,void*const*out){return TA_MOM_State((struct TA_MOM_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_MOM(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MOM_BatchState((struct TA_MOM_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_MOM(void**st){return TA_MOM_StateFree((struct TA_MOM_State**)st);}
static TA_RetCode w_MOM(void*st,FILE*f){return TA_MOM_StateSave((struct TA_MOM_State*)st,f);}
static TA_RetCode r_MOM(void**st,FILE*f){return TA_MOM_StateLoad((struct TA_MOM_State**)st,f);}
static TA_RetCode b_MULT(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_MULT(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_MULT(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_MULT(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_MULT(const double*o){return TA_MULT_Lookback();}
static TA_RetCode i_MULT(void**st,const double*o){return TA_MULT_StateInit((struct TA_MULT_State**)st);}
static TA_RetCode t_MULT(void*st,const double*v,void*const*out){return TA_MULT_State((struct TA_MULT_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_MULT(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_MULT_BatchState((struct TA_MULT_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_MULT(void**st){return TA_MULT_StateFree((struct TA_MULT_State**)st);}
static TA_RetCode w_MULT(void*st,FILE*f){return TA_MULT_StateSave((struct TA_MULT_State*)st,f);}
static TA_RetCode r_MULT(void**st,FILE*f){return TA_MULT_StateLoad((struct TA_MULT_State**)st,f);}
static TA_RetCode b_NATR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_NATR(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_NATR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_NATR(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_NATR(const double*o){return TA_NATR_Lookback((int)o[0]);}
static TA_RetCode i_NATR(void**st,const double*o){return TA_NATR_StateInit((struct TA_NATR_State**)st, (int)o[0]);}
static TA_RetCode t_NATR(void*st,const double*v,void*const*out){return TA_NATR_State((struct TA_NATR_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_NATR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_NATR_BatchState((struct TA_NATR_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_NATR(void**st){return TA_NATR_StateFree((struct TA_NATR_State**)st);}
static TA_RetCode w_NATR(void*st,FILE*f){return TA_NATR_StateSave((struct TA_NATR_State*)st,f);}
static TA_RetCode r_NATR(void**st,FILE*f){return TA_NATR_StateLoad((struct TA_NATR_State**)st,f);}
static TA_RetCode b_NVI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_NVI(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_NVI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_NVI(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_NVI(const double*o){return TA_NVI_Lookback();}
static TA_RetCode i_NVI(void**st,const double*o){return TA_NVI_StateInit((struct TA_NVI_State**)st);}
static TA_RetCode t_NVI(void*st,const double*v,void*const*out){return TA_NVI_State((struct TA_NVI_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_NVI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_NVI_BatchState((struct TA_NVI_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_NVI(void**st){return TA_NVI_StateFree((struct TA_NVI_State**)st);}
static TA_RetCode w_NVI(void*st,FILE*f){return TA_NVI_StateSave((struct TA_NVI_State*)st,f);}
static TA_RetCode r_NVI(void**st,FILE*f){return TA_NVI_StateLoad((struct TA_NVI_State**)st,f);}
static TA_RetCode b_OBV(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_OBV(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_OBV(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_OBV(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_OBV(const double*o){return TA_OBV_Lookback();}
static TA_RetCode i_OBV(void**st,const double*o){return TA_OBV_StateInit((struct TA_OBV_State**)st);}
static TA_RetCode t_OBV(void*st,const double*v,void*const*out){return TA_OBV_State((struct TA_OBV_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_OBV(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_OBV_BatchState((struct TA_OBV_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_OBV(void**st){return TA_OBV_StateFree((struct TA_OBV_State**)st);}
static TA_RetCode w_OBV(void*st,FILE*f){return TA_OBV_StateSave((struct TA_OBV_State*)st,f);}
static TA_RetCode r_OBV(void**st,FILE*f){return TA_OBV_StateLoad((struct TA_OBV_State**)st,f);}
static TA_RetCode b_PLUS_DI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_PLUS_DI(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_PLUS_DI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_PLUS_DI(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_PLUS_DI(const double*o){return TA_PLUS_DI_Lookback((int)o[0]);}
static TA_RetCode i_PLUS_DI(void**st,const double*o){return TA_PLUS_DI_StateInit((struct TA_PLUS_DI_State**)st, (int)o[0]);}
static TA_RetCode t_PLUS_DI(void*st,const double*v,void*const*out){return TA_PLUS_DI_State((struct TA_PLUS_DI_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_PLUS_DI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_PLUS_DI_BatchState((struct TA_PLUS_DI_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_PLUS_DI(void**st){return TA_PLUS_DI_StateFree((struct TA_PLUS_DI_State**)st);}
static TA_RetCode w_PLUS_DI(void*st,FILE*f){return TA_PLUS_DI_StateSave((struct TA_PLUS_DI_State*)st,f);}
static TA_RetCode r_PLUS_DI(void**st,FILE*f){return TA_PLUS_DI_StateLoad((struct TA_PLUS_DI_State**)st,f);}
static TA_RetCode b_PLUS_DM(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_PLUS_DM(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_PLUS_DM(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_PLUS_DM(s, e, in[0], in[1], (int)o[0], bg, nb, (double*)out[0]);}
static int l_PLUS_DM(const double*o){return TA_PLUS_DM_Lookback((int)o[0]);}
static TA_RetCode i_PLUS_DM(void**st,const double*o){return TA_PLUS_DM_StateInit((struct TA_PLUS_DM_State**)st, (int)o[0]);}
static TA_RetCode t_PLUS_DM(void*st,const double*v,void*const*out){return TA_PLUS_DM_State((struct TA_PLUS_DM_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_PLUS_DM(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_PLUS_DM_BatchState((struct TA_PLUS_DM_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_PLUS_DM(void**st){return TA_PLUS_DM_StateFree((struct TA_PLUS_DM_State**)st);}
static TA_RetCode w_PLUS_DM(void*st,FILE*f){return TA_PLUS_DM_StateSave((struct TA_PLUS_DM_State*)st,f);}
static TA_RetCode r_PLUS_DM(void**st,FILE*f){return TA_PLUS_DM_StateLoad((struct TA_PLUS_DM_State**)st,f);}
static TA_RetCode b_PPO(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_PPO(s, e, in[0], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], bg, nb, (double*)out[0]);}
static TA_RetCode s_PPO(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_PPO(s, e, in[0], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], bg, nb, (double*)out[0]);}
static int l_PPO(const double*o){return TA_PPO_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode i_PPO(void**st,const double*o){return TA_PPO_StateInit((struct TA_PPO_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode t_PPO(void*st,const double*v,void*const*out){return TA_PPO_State((struct TA_PPO_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_PPO(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_PPO_BatchState((struct TA_PPO_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_PPO(void**st){return TA_PPO_StateFree((struct TA_PPO_State**)st);}
static TA_RetCode w_PPO(void*st,FILE*f){return TA_PPO_StateSave((struct TA_PPO_State*)st,f);}
static TA_RetCode r_PPO(void**st,FILE*f){return TA_PPO_StateLoad((struct TA_PPO_State**)st,f);}
static TA_RetCode b_PVI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_PVI(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_PVI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_PVI(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_PVI(const double*o){return TA_PVI_Lookback();}
static TA_RetCode i_PVI(void**st,const double*o){return TA_PVI_StateInit((struct TA_PVI_State**)st);}
static TA_RetCode t_PVI(void*st,const double*v,void*const*out){return TA_PVI_State((struct TA_PVI_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_PVI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_PVI_BatchState((struct TA_PVI_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_PVI(void**st){return TA_PVI_StateFree((struct TA_PVI_State**)st);}
static TA_RetCode w_PVI(void*st,FILE*f){return TA_PVI_StateSave((struct TA_PVI_State*)st,f);}
static TA_RetCode r_PVI(void**st,FILE*f){return TA_PVI_StateLoad((struct TA_PVI_State**)st,f);}
static TA_RetCode b_PVT(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_PVT(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_PVT(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_PVT(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_PVT(const double*o){return TA_PVT_Lookback();}
static TA_RetCode i_PVT(void**st,const double*o){return TA_PVT_StateInit((struct TA_PVT_State**)st);}
static TA_RetCode t_PVT(void*st,const double*v,void*const*out){return TA_PVT_State((struct TA_PVT_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_PVT(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_PVT_BatchState((struct TA_PVT_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_PVT(void**st){return TA_PVT_StateFree((struct TA_PVT_State**)st);}
static TA_RetCode w_PVT(void*st,FILE*f){return TA_PVT_StateSave((struct TA_PVT_State*)st,f);}
static TA_RetCode r_PVT(void**st,FILE*f){return TA_PVT_StateLoad((struct TA_PVT_State**)st,f);}
static TA_RetCode b_ROC(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ROC(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ROC(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ROC(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_ROC(const double*o){return TA_ROC_Lookback((int)o[0]);}
static TA_RetCode i_ROC(void**st,const double*o){return TA_ROC_StateInit((struct TA_ROC_State**)st, (int)o[0]);}
static TA_RetCode t_ROC(void*st,const double*v,void*const*out){return TA_ROC_State((struct TA_ROC_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_ROC(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ROC_BatchState((struct TA_ROC_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_ROC(void**st){return TA_ROC_StateFree((struct TA_ROC_State**)st);}
static TA_RetCode w_ROC(void*st,FILE*f){return TA_ROC_StateSave((struct TA_ROC_State*)st,f);}
static TA_RetCode r_ROC(void**st,FILE*f){return TA_ROC_StateLoad((struct TA_ROC_State**)st,f);}
static TA_RetCode b_ROCP(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ROCP(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ROCP(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ROCP(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_ROCP(const double*o){return TA_ROCP_Lookback((int)o[0]);}
static TA_RetCode i_ROCP(void**st,const double*o){return TA_ROCP_StateInit((struct TA_ROCP_State**)st, (int)o[0]);}
static TA_RetCode t_ROCP(void*st,const double*v,void*const*out){return TA_ROCP_State((struct TA_ROCP_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_ROCP(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ROCP_BatchState((struct TA_ROCP_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_ROCP(void**st){return TA_ROCP_StateFree((struct TA_ROCP_State**)st);}
static TA_RetCode w_ROCP(void*st,FILE*f){return TA_ROCP_StateSave((struct TA_ROCP_State*)st,f);}
static TA_RetCode r_ROCP(void**st,FILE*f){return TA_ROCP_StateLoad((struct TA_ROCP_State**)st,f);}
static TA_RetCode b_ROCR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ROCR(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ROCR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ROCR(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_ROCR(const double*o){return TA_ROCR_Lookback((int)o[0]);}
static TA_RetCode i_ROCR(void**st,const double*o){return TA_ROCR_StateInit((struct TA_ROCR_State**)st, (int)o[0]);}
static TA_RetCode t_ROCR(void*st,const double*v,void*const*out){return TA_ROCR_State((struct TA_ROCR_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_ROCR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ROCR_BatchState((struct TA_ROCR_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_ROCR(void**st){return TA_ROCR_StateFree((struct TA_ROCR_State**)st);}
static TA_RetCode w_ROCR(void*st,FILE*f){return TA_ROCR_StateSave((struct TA_ROCR_State*)st,f);}
static TA_RetCode r_ROCR(void**st,FILE*f){return TA_ROCR_StateLoad((struct TA_ROCR_State**)st,f);}
static TA_RetCode b_ROCR100(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ROCR100(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_ROCR100(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ROCR100(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_ROCR100(const double*o){return TA_ROCR100_Lookback((int)o[0]);}
static TA_RetCode i_ROCR100(void**st,const double*o){return TA_ROCR100_StateInit((struct TA_ROCR100_State**)st, (int)o[0]);}
static TA_RetCode t_ROCR100(void*st,const double*v,void*const*out){return TA_ROCR100_State((struct TA_ROCR100_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_ROCR100(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ROCR100_BatchState((struct TA_ROCR100_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_ROCR100(void**st){return TA_ROCR100_StateFree((struct TA_ROCR100_State**)st);}
static TA_RetCode w_ROCR100(void*st,FILE*f){return TA_ROCR100_StateSave((struct TA_ROCR100_State*)st,f);}
static TA_RetCode r_ROCR100(void**st,FILE*f){return TA_ROCR100_StateLoad((struct TA_ROCR100_State**)st,f);}
static TA_RetCode b_RSI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_RSI(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_RSI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_RSI(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_RSI(const double*o){return TA_RSI_Lookback((int)o[0]);}
static TA_RetCode i_RSI(void**st,const double*o){return TA_RSI_StateInit((struct TA_RSI_State**)st, (int)o[0]);}
static TA_RetCode t_RSI(void*st,const double*v,void*const*out){return TA_RSI_State((struct TA_RSI_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_RSI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_RSI_BatchState((struct TA_RSI_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_RSI(void**st){return TA_RSI_StateFree((struct TA_RSI_State**)st);}
static TA_RetCode w_RSI(void*st,FILE*f){return TA_RSI_StateSave((struct TA_RSI_State*)st,f);}
static TA_RetCode r_RSI(void**st,FILE*f){return TA_RSI_StateLoad((struct TA_RSI_State**)st,f);}
static TA_RetCode b_SAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_SAR(s, e, in[0], in[1], o[0], o[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_SAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_SAR(s, e, in[0], in[1], o[0], o[1], bg, nb, (double*)out[0]);}
static int l_SAR(const double*o){return TA_SAR_Lookback(o[0], o[1]);}
static TA_RetCode i_SAR(void**st,const double*o){return TA_SAR_StateInit((struct TA_SAR_State**)st, o[0], o[1]);}
static TA_RetCode t_SAR(void*st,const double*v,void*const*out){return TA_SAR_State((struct TA_SAR_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_SAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_SAR_BatchState((struct TA_SAR_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_SAR(void**st){return TA_SAR_StateFree((struct TA_SAR_State**)st);}
static TA_RetCode w_SAR(void*st,FILE*f){return TA_SAR_StateSave((struct TA_SAR_State*)st,f);}
static TA_RetCode r_SAR(void**st,FILE*f){return TA_SAR_StateLoad((struct TA_SAR_State**)st,f);}
static TA_RetCode b_SAREXT(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_SAREXT(s, e, in[0], in[1], o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], bg, nb, (double*)out[0]);}
static TA_RetCode s_SAREXT(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_SAREXT(s, e, in[0], in[1], o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], bg, nb, (double*)out[0]);}
static int l_SAREXT(const double*o){return TA_SAREXT_Lookback(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7]);}
static TA_RetCode i_SAREXT(void**st,const double*o){return TA_SAREXT_StateInit((struct TA_SAREXT_State**)st, o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7]);}
static TA_RetCode t_SAREXT(void*st,const double*v,void*const*out){return TA_SAREXT_State((struct TA_SAREXT_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_SAREXT(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_SAREXT_BatchState((struct TA_SAREXT_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_SAREXT(void**st){return TA_SAREXT_StateFree((struct TA_SAREXT_State**)st);}
static TA_RetCode w_SAREXT(void*st,FILE*f){return TA_SAREXT_StateSave((struct TA_SAREXT_State*)st,f);}
static TA_RetCode r_SAREXT(void**st,FILE*f){return TA_SAREXT_StateLoad((struct TA_SAREXT_State**)st,f);}
static TA_RetCode b_SIN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_SIN(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_SIN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_SIN(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_SIN(const double*o){return TA_SIN_Lookback();}
static TA_RetCode i_SIN(void**st,const double*o){return TA_SIN_StateInit((struct TA_SIN_State**)st);}
static TA_RetCode t_SIN(void*st,const double*v,void*const*out){return TA_SIN_State((struct TA_SIN_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_SIN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_SIN_BatchState((struct TA_SIN_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_SIN(void**st){return TA_SIN_StateFree((struct TA_SIN_State**)st);}
static TA_RetCode w_SIN(void*st,FILE*f){return TA_SIN_StateSave((struct TA_SIN_State*)st,f);}
static TA_RetCode r_SIN(void**st,FILE*f){return TA_SIN_StateLoad((struct TA_SIN_State**)st,f);}
static TA_RetCode b_SINH(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_SINH(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_SINH(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_SINH(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_SINH(const double*o){return TA_SINH_Lookback();}
static TA_RetCode i_SINH(void**st,const double*o){return TA_SINH_StateInit((struct TA_SINH_State**)st);}
static TA_RetCode t_SINH(void*st,const double*v,void*const*out){return TA_SINH_State((struct TA_SINH_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_SINH(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_SINH_BatchState((struct TA_SINH_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_SINH(void**st){return TA_SINH_StateFree((struct TA_SINH_State**)st);}
static TA_RetCode w_SINH(void*st,FILE*f){return TA_SINH_StateSave((struct TA_SINH_State*)st,f);}
static TA_RetCode r_SINH(void**st,FILE*f){return TA_SINH_StateLoad((struct TA_SINH_State**)st,f);}
static TA_RetCode b_SMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_SMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_SMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_SMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_SMA(const double*o){return TA_SMA_Lookback((int)o[0]);}
static TA_RetCode i_SMA(void**st,const double*o){return TA_SMA_StateInit((struct TA_SMA_State**)st, (int)o[0]);}
static TA_RetCode t_SMA(void*st,const double*v,void*const*out){return TA_SMA_State((struct TA_SMA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_SMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_SMA_BatchState((struct TA_SMA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_SMA(void**st){return TA_SMA_StateFree((struct TA_SMA_State**)st);}
static TA_RetCode w_SMA(void*st,FILE*f){return TA_SMA_StateSave((struct TA_SMA_State*)st,f);}
static TA_RetCode r_SMA(void**st,FILE*f){return TA_SMA_StateLoad((struct TA_SMA_State**)st,f);}
static TA_RetCode b_SQRT(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_SQRT(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_SQRT(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_SQRT(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_SQRT(const double*o){return TA_SQRT_Lookback();}
static TA_RetCode i_SQRT(void**st,const double*o){return TA_SQRT_StateInit((struct TA_SQRT_State**)st);}
static TA_RetCode t_SQRT(void*st,const double*v,void*const*out){return TA_SQRT_State((struct TA_SQRT_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_SQRT(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_SQRT_BatchState((struct TA_SQRT_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_SQRT(void**st){return TA_SQRT_StateFree((struct TA_SQRT_State**)st);}
static TA_RetCode w_SQRT(void*st,FILE*f){return TA_SQRT_StateSave((struct TA_SQRT_State*)st,f);}
static TA_RetCode r_SQRT(void**st,FILE*f){return TA_SQRT_StateLoad((struct TA_SQRT_State**)st,f);}
static TA_RetCode b_STDDEV(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_STDDEV(s, e, in[0], (int)o[0], o[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_STDDEV(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_STDDEV(s, e, in[0], (int)o[0], o[1], bg, nb, (double*)out[0]);}
static int l_STDDEV(const double*o){return TA_STDDEV_Lookback((int)o[0], o[1]);}
static TA_RetCode i_STDDEV(void**st,const double*o){return TA_STDDEV_StateInit((struct TA_STDDEV_State**)st, (int)o[0], o[1]);}
static TA_RetCode t_STDDEV(void*st,const double*v,void*const*out){return TA_STDDEV_State((struct TA_STDDEV_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_STDDEV(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_STDDEV_BatchState((struct TA_STDDEV_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_STDDEV(void**st){return TA_STDDEV_StateFree((struct TA_STDDEV_State**)st);}
static TA_RetCode w_STDDEV(void*st,FILE*f){return TA_STDDEV_StateSave((struct TA_STDDEV_State*)st,f);}
static TA_RetCode r_STDDEV(void**st,FILE*f){return TA_STDDEV_StateLoad((struct TA_STDDEV_State**)st,f);}
static TA_RetCode b_STOCH(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_STOCH(s, e, in[0], in[1], in[2], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], (int)o[3], (TA_MAType)(int)o[4], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode s_STOCH(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_STOCH(s, e, in[0], in[1], in[2], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], (int)o[3], (TA_MAType)(int)o[4], bg, nb, (double*)out[0], (double*)out[1]);}
static int l_STOCH(const double*o){return TA_STOCH_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2], (int)o[3], (TA_MAType)(int)o[4]);}
static TA_RetCode i_STOCH(void**st,const double*o){return TA_STOCH_StateInit((struct TA_STOCH_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2], (int)o[3], (TA_MAType)(int)o[4]);}
static TA_RetCode t_STOCH(void*st,const double*v,void*const*out){return TA_STOCH_State((struct TA_STOCH_State*)st, v[0], v[1], v[2], (double*)out[0], (double*)out[1]);}
static TA_RetCode c_STOCH(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_STOCH_BatchState((struct TA_STOCH_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode f_STOCH(void**st){return TA_STOCH_StateFree((struct TA_STOCH_State**)st);}
static TA_RetCode w_STOCH(void*st,FILE*f){return TA_STOCH_StateSave((struct TA_STOCH_State*)st,f);}
static TA_RetCode r_STOCH(void**st,FILE*f){return TA_STOCH_StateLoad((struct TA_STOCH_State**)st,f);}
static TA_RetCode b_STOCHF(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_STOCHF(s, e, in[0], in[1], in[2], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode s_STOCHF(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_STOCHF(s, e, in[0], in[1], in[2], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], bg, nb, (double*)out[0], (double*)out[1]);}
static int l_STOCHF(const double*o){return TA_STOCHF_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode i_STOCHF(void**st,const double*o){return TA_STOCHF_StateInit((struct TA_STOCHF_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode t_STOCHF(void*st,const double*v,void*const*out){return TA_STOCHF_State((struct TA_STOCHF_State*)st, v[0], v[1], v[2], (double*)out[0], (double*)out[1]);}
static TA_RetCode c_STOCHF(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_STOCHF_BatchState((struct TA_STOCHF_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode f_STOCHF(void**st){return TA_STOCHF_StateFree((struct TA_STOCHF_State**)st);}
static TA_RetCode w_STOCHF(void*st,FILE*f){return TA_STOCHF_StateSave((struct TA_STOCHF_State*)st,f);}
static TA_RetCode r_STOCHF(void**st,FILE*f){return TA_STOCHF_StateLoad((struct TA_STOCHF_State**)st,f);}
static TA_RetCode b_STOCHRSI(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_STOCHRSI(s, e, in[0], (int)o[0], (int)o[1], (int)o[2], (TA_MAType)(int)o[3], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode s_STOCHRSI(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_STOCHRSI(s, e, in[0], (int)o[0], (int)o[1], (int)o[2], (TA_MAType)(int)o[3], bg, nb, (double*)out[0], (double*)out[1]);}
static int l_STOCHRSI(const double*o){return TA_STOCHRSI_Lookback((int)o[0], (int)o[1], (int)o[2], (TA_MAType)(int)o[3]);}
static TA_RetCode i_STOCHRSI(void**st,const double*o){return TA_STOCHRSI_StateInit((struct TA_STOCHRSI_State**)st, (int)o[0], (int)o[1], (int)o[2], (TA_MAType)(int)o[3]);}
static TA_RetCode t_STOCHRSI(void*st,const double*v,void*const*out){return TA_STOCHRSI_State((struct TA_STOCHRSI_State*)st, v[0], (double*)out[0], (double*)out[1]);}
static TA_RetCode c_STOCHRSI(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_STOCHRSI_BatchState((struct TA_STOCHRSI_State*)st, s, e, in[0], bg, nb, (double*)out[0], (double*)out[1]);}
static TA_RetCode f_STOCHRSI(void**st){return TA_STOCHRSI_StateFree((struct TA_STOCHRSI_State**)st);}
static TA_RetCode w_STOCHRSI(void*st,FILE*f){return TA_STOCHRSI_StateSave((struct TA_STOCHRSI_State*)st,f);}
static TA_RetCode r_STOCHRSI(void**st,FILE*f){return TA_STOCHRSI_StateLoad((struct TA_STOCHRSI_State**)st,f);}
static TA_RetCode b_SUB(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_SUB(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_SUB(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_SUB(s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static int l_SUB(const double*o){return TA_SUB_Lookback();}
static TA_RetCode i_SUB(void**st,const double*o){return TA_SUB_StateInit((struct TA_SUB_State**)st);}
static TA_RetCode t_SUB(void*st,const double*v,void*const*out){return TA_SUB_State((struct TA_SUB_State*)st, v[0], v[1], (double*)out[0]);}
static TA_RetCode c_SUB(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_SUB_BatchState((struct TA_SUB_State*)st, s, e, in[0], in[1], bg, nb, (double*)out[0]);}
static TA_RetCode f_SUB(void**st){return TA_SUB_StateFree((struct TA_SUB_State**)st);}
static TA_RetCode w_SUB(void*st,FILE*f){return TA_SUB_StateSave((struct TA_SUB_State*)st,f);}
static TA_RetCode r_SUB(void**st,FILE*f){return TA_SUB_StateLoad((struct TA_SUB_State**)st,f);}
static TA_RetCode b_SUM(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_SUM(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_SUM(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_SUM(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_SUM(const double*o){return TA_SUM_Lookback((int)o[0]);}
static TA_RetCode i_SUM(void**st,const double*o){return TA_SUM_StateInit((struct TA_SUM_State**)st, (int)o[0]);}
static TA_RetCode t_SUM(void*st,const double*v,void*const*out){return TA_SUM_State((struct TA_SUM_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_SUM(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_SUM_BatchState((struct TA_SUM_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_SUM(void**st){return TA_SUM_StateFree((struct TA_SUM_State**)st);}
static TA_RetCode w_SUM(void*st,FILE*f){return TA_SUM_StateSave((struct TA_SUM_State*)st,f);}
static TA_RetCode r_SUM(void**st,FILE*f){return TA_SUM_StateLoad((struct TA_SUM_State**)st,f);}
static TA_RetCode b_T3(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_T3(s, e, in[0], (int)o[0], o[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_T3(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_T3(s, e, in[0], (int)o[0], o[1], bg, nb, (double*)out[0]);}
static int l_T3(const double*o){return TA_T3_Lookback((int)o[0], o[1]);}
static TA_RetCode i_T3(void**st,const double*o){return TA_T3_StateInit((struct TA_T3_State**)st, (int)o[0], o[1]);}
static TA_RetCode t_T3(void*st,const double*v,void*const*out){return TA_T3_State((struct TA_T3_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_T3(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_T3_BatchState((struct TA_T3_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_T3(void**st){return TA_T3_StateFree((struct TA_T3_State**)st);}
static TA_RetCode w_T3(void*st,FILE*f){return TA_T3_StateSave((struct TA_T3_State*)st,f);}
static TA_RetCode r_T3(void**st,FILE*f){return TA_T3_StateLoad((struct TA_T3_State**)st,f);}
static TA_RetCode b_TAN(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_TAN(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_TAN(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_TAN(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_TAN(const double*o){return TA_TAN_Lookback();}
static TA_RetCode i_TAN(void**st,const double*o){return TA_TAN_StateInit((struct TA_TAN_State**)st);}
static TA_RetCode t_TAN(void*st,const double*v,void*const*out){return TA_TAN_State((struct TA_TAN_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_TAN(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_TAN_BatchState((struct TA_TAN_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_TAN(void**st){return TA_TAN_StateFree((struct TA_TAN_State**)st);}
static TA_RetCode w_TAN(void*st,FILE*f){return TA_TAN_StateSave((struct TA_TAN_State*)st,f);}
static TA_RetCode r_TAN(void**st,FILE*f){return TA_TAN_StateLoad((struct TA_TAN_State**)st,f);}
static TA_RetCode b_TANH(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_TANH(s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_TANH(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_TANH(s, e, in[0], bg, nb, (double*)out[0]);}
static int l_TANH(const double*o){return TA_TANH_Lookback();}
static TA_RetCode i_TANH(void**st,const double*o){return TA_TANH_StateInit((struct TA_TANH_State**)st);}
static TA_RetCode t_TANH(void*st,const double*v,void*const*out){return TA_TANH_State((struct TA_TANH_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_TANH(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_TANH_BatchState((struct TA_TANH_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_TANH(void**st){return TA_TANH_StateFree((struct TA_TANH_State**)st);}
static TA_RetCode w_TANH(void*st,FILE*f){return TA_TANH_StateSave((struct TA_TANH_State*)st,f);}
static TA_RetCode r_TANH(void**st,FILE*f){return TA_TANH_StateLoad((struct TA_TANH_State**)st,f);}
static TA_RetCode b_TEMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_TEMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_TEMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_TEMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_TEMA(const double*o){return TA_TEMA_Lookback((int)o[0]);}
static TA_RetCode i_TEMA(void**st,const double*o){return TA_TEMA_StateInit((struct TA_TEMA_State**)st, (int)o[0]);}
static TA_RetCode t_TEMA(void*st,const double*v,void*const*out){return TA_TEMA_State((struct TA_TEMA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_TEMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_TEMA_BatchState((struct TA_TEMA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_TEMA(void**st){return TA_TEMA_StateFree((struct TA_TEMA_State**)st);}
static TA_RetCode w_TEMA(void*st,FILE*f){return TA_TEMA_StateSave((struct TA_TEMA_State*)st,f);}
static TA_RetCode r_TEMA(void**st,FILE*f){return TA_TEMA_StateLoad((struct TA_TEMA_State**)st,f);}
static TA_RetCode b_TRANGE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_TRANGE(s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode s_TRANGE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_TRANGE(s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static int l_TRANGE(const double*o){return TA_TRANGE_Lookback();}
static TA_RetCode i_TRANGE(void**st,const double*o){return TA_TRANGE_StateInit((struct TA_TRANGE_State**)st);}
static TA_RetCode t_TRANGE(void*st,const double*v,void*const*out){return TA_TRANGE_State((struct TA_TRANGE_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_TRANGE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_TRANGE_BatchState((struct TA_TRANGE_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_TRANGE(void**st){return TA_TRANGE_StateFree((struct TA_TRANGE_State**)st);}
static TA_RetCode w_TRANGE(void*st,FILE*f){return TA_TRANGE_StateSave((struct TA_TRANGE_State*)st,f);}
static TA_RetCode r_TRANGE(void**st,FILE*f){return TA_TRANGE_StateLoad((struct TA_TRANGE_State**)st,f);}
static TA_RetCode b_TRIMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_TRIMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_TRIMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_TRIMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_TRIMA(const double*o){return TA_TRIMA_Lookback((int)o[0]);}
static TA_RetCode i_TRIMA(void**st,const double*o){return TA_TRIMA_StateInit((struct TA_TRIMA_State**)st, (int)o[0]);}
static TA_RetCode t_TRIMA(void*st,const double*v,void*const*out){return TA_TRIMA_State((struct TA_TRIMA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_TRIMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_TRIMA_BatchState((struct TA_TRIMA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_TRIMA(void**st){return TA_TRIMA_StateFree((struct TA_TRIMA_State**)st);}
static TA_RetCode w_TRIMA(void*st,FILE*f){return TA_TRIMA_StateSave((struct TA_TRIMA_State*)st,f);}
static TA_RetCode r_TRIMA(void**st,FILE*f){return TA_TRIMA_StateLoad((struct TA_TRIMA_State**)st,f);}
static TA_RetCode b_TRIX(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_TRIX(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_TRIX(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_TRIX(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_TRIX(const double*o){return TA_TRIX_Lookback((int)o[0]);}
static TA_RetCode i_TRIX(void**st,const double*o){return TA_TRIX_StateInit((struct TA_TRIX_State**)st, (int)o[0]);}
static TA_RetCode t_TRIX(void*st,const double*v,void*const*out){return TA_TRIX_State((struct TA_TRIX_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_TRIX(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_TRIX_BatchState((struct TA_TRIX_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_TRIX(void**st){return TA_TRIX_StateFree((struct TA_TRIX_State**)st);}
static TA_RetCode w_TRIX(void*st,FILE*f){return TA_TRIX_StateSave((struct TA_TRIX_State*)st,f);}
static TA_RetCode r_TRIX(void**st,FILE*f){return TA_TRIX_StateLoad((struct TA_TRIX_State**)st,f);}
static TA_RetCode b_TSF(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_TSF(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_TSF(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_TSF(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_TSF(const double*o){return TA_TSF_Lookback((int)o[0]);}
static TA_RetCode i_TSF(void**st,const double*o){return TA_TSF_StateInit((struct TA_TSF_State**)st, (int)o[0]);}
static TA_RetCode t_TSF(void*st,const double*v,void*const*out){return TA_TSF_State((struct TA_TSF_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_TSF(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_TSF_BatchState((struct TA_TSF_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_TSF(void**st){return TA_TSF_StateFree((struct TA_TSF_State**)st);}
static TA_RetCode w_TSF(void*st,FILE*f){return TA_TSF_StateSave((struct TA_TSF_State*)st,f);}
static TA_RetCode r_TSF(void**st,FILE*f){return TA_TSF_StateLoad((struct TA_TSF_State**)st,f);}
static TA_RetCode b_TYPPRICE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_TYPPRICE(s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode s_TYPPRICE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_TYPPRICE(s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static int l_TYPPRICE(const double*o){return TA_TYPPRICE_Lookback();}
static TA_RetCode i_TYPPRICE(void**st,const double*o){return TA_TYPPRICE_StateInit((struct TA_TYPPRICE_State**)st);}
static TA_RetCode t_TYPPRICE(void*st,const double*v,void*const*out){return TA_TYPPRICE_State((struct TA_TYPPRICE_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_TYPPRICE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_TYPPRICE_BatchState((struct TA_TYPPRICE_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_TYPPRICE(void**st){return TA_TYPPRICE_StateFree((struct TA_TYPPRICE_State**)st);}
static TA_RetCode w_TYPPRICE(void*st,FILE*f){return TA_TYPPRICE_StateSave((struct TA_TYPPRICE_State*)st,f);}
static TA_RetCode r_TYPPRICE(void**st,FILE*f){return TA_TYPPRICE_StateLoad((struct TA_TYPPRICE_State**)st,f);}
static TA_RetCode b_ULTOSC(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_ULTOSC(s, e, in[0], in[1], in[2], (int)o[0], (int)o[1], (int)o[2], bg, nb, (double*)out[0]);}
static TA_RetCode s_ULTOSC(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_ULTOSC(s, e, in[0], in[1], in[2], (int)o[0], (int)o[1], (int)o[2], bg, nb, (double*)out[0]);}
static int l_ULTOSC(const double*o){return TA_ULTOSC_Lookback((int)o[0], (int)o[1], (int)o[2]);}
static TA_RetCode i_ULTOSC(void**st,const double*o){return TA_ULTOSC_StateInit((struct TA_ULTOSC_State**)st, (int)o[0], (int)o[1], (int)o[2]);}
static TA_RetCode t_ULTOSC(void*st,const double*v,void*const*out){return TA_ULTOSC_State((struct TA_ULTOSC_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_ULTOSC(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_ULTOSC_BatchState((struct TA_ULTOSC_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_ULTOSC(void**st){return TA_ULTOSC_StateFree((struct TA_ULTOSC_State**)st);}
static TA_RetCode w_ULTOSC(void*st,FILE*f){return TA_ULTOSC_StateSave((struct TA_ULTOSC_State*)st,f);}
static TA_RetCode r_ULTOSC(void**st,FILE*f){return TA_ULTOSC_StateLoad((struct TA_ULTOSC_State**)st,f);}
static TA_RetCode b_VAR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_VAR(s, e, in[0], (int)o[0], o[1], bg, nb, (double*)out[0]);}
static TA_RetCode s_VAR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_VAR(s, e, in[0], (int)o[0], o[1], bg, nb, (double*)out[0]);}
static int l_VAR(const double*o){return TA_VAR_Lookback((int)o[0], o[1]);}
static TA_RetCode i_VAR(void**st,const double*o){return TA_VAR_StateInit((struct TA_VAR_State**)st, (int)o[0], o[1]);}
static TA_RetCode t_VAR(void*st,const double*v,void*const*out){return TA_VAR_State((struct TA_VAR_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_VAR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_VAR_BatchState((struct TA_VAR_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_VAR(void**st){return TA_VAR_StateFree((struct TA_VAR_State**)st);}
static TA_RetCode w_VAR(void*st,FILE*f){return TA_VAR_StateSave((struct TA_VAR_State*)st,f);}
static TA_RetCode r_VAR(void**st,FILE*f){return TA_VAR_StateLoad((struct TA_VAR_State**)st,f);}
static TA_RetCode b_WCLPRICE(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_WCLPRICE(s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode s_WCLPRICE(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_WCLPRICE(s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static int l_WCLPRICE(const double*o){return TA_WCLPRICE_Lookback();}
static TA_RetCode i_WCLPRICE(void**st,const double*o){return TA_WCLPRICE_StateInit((struct TA_WCLPRICE_State**)st);}
static TA_RetCode t_WCLPRICE(void*st,const double*v,void*const*out){return TA_WCLPRICE_State((struct TA_WCLPRICE_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_WCLPRICE(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_WCLPRICE_BatchState((struct TA_WCLPRICE_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_WCLPRICE(void**st){return TA_WCLPRICE_StateFree((struct TA_WCLPRICE_State**)st);}
static TA_RetCode w_WCLPRICE(void*st,FILE*f){return TA_WCLPRICE_StateSave((struct TA_WCLPRICE_State*)st,f);}
static TA_RetCode r_WCLPRICE(void**st,FILE*f){return TA_WCLPRICE_StateLoad((struct TA_WCLPRICE_State**)st,f);}
static TA_RetCode b_WILLR(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_WILLR(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_WILLR(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_WILLR(s, e, in[0], in[1], in[2], (int)o[0], bg, nb, (double*)out[0]);}
static int l_WILLR(const double*o){return TA_WILLR_Lookback((int)o[0]);}
static TA_RetCode i_WILLR(void**st,const double*o){return TA_WILLR_StateInit((struct TA_WILLR_State**)st, (int)o[0]);}
static TA_RetCode t_WILLR(void*st,const double*v,void*const*out){return TA_WILLR_State((struct TA_WILLR_State*)st, v[0], v[1], v[2], (double*)out[0]);}
static TA_RetCode c_WILLR(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_WILLR_BatchState((struct TA_WILLR_State*)st, s, e, in[0], in[1], in[2], bg, nb, (double*)out[0]);}
static TA_RetCode f_WILLR(void**st){return TA_WILLR_StateFree((struct TA_WILLR_State**)st);}
static TA_RetCode w_WILLR(void*st,FILE*f){return TA_WILLR_StateSave((struct TA_WILLR_State*)st,f);}
static TA_RetCode r_WILLR(void**st,FILE*f){return TA_WILLR_StateLoad((struct TA_WILLR_State**)st,f);}
static TA_RetCode b_WLMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_WLMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_WLMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_WLMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_WLMA(const double*o){return TA_WLMA_Lookback((int)o[0]);}
static TA_RetCode i_WLMA(void**st,const double*o){return TA_WLMA_StateInit((struct TA_WLMA_State**)st, (int)o[0]);}
static TA_RetCode t_WLMA(void*st,const double*v,void*const*out){return TA_WLMA_State((struct TA_WLMA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_WLMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_WLMA_BatchState((struct TA_WLMA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_WLMA(void**st){return TA_WLMA_StateFree((struct TA_WLMA_State**)st);}
static TA_RetCode w_WLMA(void*st,FILE*f){return TA_WLMA_StateSave((struct TA_WLMA_State*)st,f);}
static TA_RetCode r_WLMA(void**st,FILE*f){return TA_WLMA_StateLoad((struct TA_WLMA_State**)st,f);}
static TA_RetCode b_WMA(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_WMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static TA_RetCode s_WMA(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){return TA_S_WMA(s, e, in[0], (int)o[0], bg, nb, (double*)out[0]);}
static int l_WMA(const double*o){return TA_WMA_Lookback((int)o[0]);}
static TA_RetCode i_WMA(void**st,const double*o){return TA_WMA_StateInit((struct TA_WMA_State**)st, (int)o[0]);}
static TA_RetCode t_WMA(void*st,const double*v,void*const*out){return TA_WMA_State((struct TA_WMA_State*)st, v[0], (double*)out[0]);}
static TA_RetCode c_WMA(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){return TA_WMA_BatchState((struct TA_WMA_State*)st, s, e, in[0], bg, nb, (double*)out[0]);}
static TA_RetCode f_WMA(void**st){return TA_WMA_StateFree((struct TA_WMA_State**)st);}
static TA_RetCode w_WMA(void*st,FILE*f){return TA_WMA_StateSave((struct TA_WMA_State*)st,f);}
static TA_RetCode r_WMA(void**st,FILE*f){return TA_WMA_StateLoad((struct TA_WMA_State**)st,f);}
const Fn FN[]={
  {"ACCBANDS",3,"HLC",1,"i",3,"rrr",b_ACCBANDS,s_ACCBANDS,l_ACCBANDS,i_ACCBANDS,t_ACCBANDS,c_ACCBANDS,f_ACCBANDS,w_ACCBANDS,r_ACCBANDS},
  {"ACOS",1,"R",0,"",1,"r",b_ACOS,s_ACOS,l_ACOS,i_ACOS,t_ACOS,c_ACOS,f_ACOS,w_ACOS,r_ACOS},
  {"AD",4,"HLCV",0,"",1,"r",b_AD,s_AD,l_AD,i_AD,t_AD,c_AD,f_AD,w_AD,r_AD},
  {"ADD",2,"RR",0,"",1,"r",b_ADD,s_ADD,l_ADD,i_ADD,t_ADD,c_ADD,f_ADD,w_ADD,r_ADD},
  {"ADOSC",4,"HLCV",2,"ii",1,"r",b_ADOSC,s_ADOSC,l_ADOSC,i_ADOSC,t_ADOSC,c_ADOSC,f_ADOSC,w_ADOSC,r_ADOSC},
  {"ADX",3,"HLC",1,"i",1,"r",b_ADX,s_ADX,l_ADX,i_ADX,t_ADX,c_ADX,f_ADX,w_ADX,r_ADX},
  {"ADXR",3,"HLC",1,"i",1,"r",b_ADXR,s_ADXR,l_ADXR,i_ADXR,t_ADXR,c_ADXR,f_ADXR,w_ADXR,r_ADXR},
  {"APO",1,"R",3,"iim",1,"r",b_APO,s_APO,l_APO,i_APO,t_APO,c_APO,f_APO,w_APO,r_APO},
  {"AROON",2,"HL",1,"i",2,"rr",b_AROON,s_AROON,l_AROON,i_AROON,t_AROON,c_AROON,f_AROON,w_AROON,r_AROON},
  {"AROONOSC",2,"HL",1,"i",1,"r",b_AROONOSC,s_AROONOSC,l_AROONOSC,i_AROONOSC,t_AROONOSC,c_AROONOSC,f_AROONOSC,w_AROONOSC,r_AROONOSC},
  {"ASIN",1,"R",0,"",1,"r",b_ASIN,s_ASIN,l_ASIN,i_ASIN,t_ASIN,c_ASIN,f_ASIN,w_ASIN,r_ASIN},
  {"ATAN",1,"R",0,"",1,"r",b_ATAN,s_ATAN,l_ATAN,i_ATAN,t_ATAN,c_ATAN,f_ATAN,w_ATAN,r_ATAN},
  {"ATR",3,"HLC",1,"i",1,"r",b_ATR,s_ATR,l_ATR,i_ATR,t_ATR,c_ATR,f_ATR,w_ATR,r_ATR},
  {"AVGPRICE",4,"OHLC",0,"",1,"r",b_AVGPRICE,s_AVGPRICE,l_AVGPRICE,i_AVGPRICE,t_AVGPRICE,c_AVGPRICE,f_AVGPRICE,w_AVGPRICE,r_AVGPRICE},
  {"AVGDEV",1,"R",1,"i",1,"r",b_AVGDEV,s_AVGDEV,l_AVGDEV,i_AVGDEV,t_AVGDEV,c_AVGDEV,f_AVGDEV,w_AVGDEV,r_AVGDEV},
  {"BBANDS",1,"R",4,"irrm",3,"rrr",b_BBANDS,s_BBANDS,l_BBANDS,i_BBANDS,t_BBANDS,c_BBANDS,f_BBANDS,w_BBANDS,r_BBANDS},
  {"BETA",2,"RR",1,"i",1,"r",b_BETA,s_BETA,l_BETA,i_BETA,t_BETA,c_BETA,f_BETA,w_BETA,r_BETA},
  {"BOP",4,"OHLC",0,"",1,"r",b_BOP,s_BOP,l_BOP,i_BOP,t_BOP,c_BOP,f_BOP,w_BOP,r_BOP},
  {"CCI",3,"HLC",1,"i",1,"r",b_CCI,s_CCI,l_CCI,i_CCI,t_CCI,c_CCI,f_CCI,w_CCI,r_CCI},
  {"CDL2CROWS",4,"OHLC",0,"",1,"i",b_CDL2CROWS,s_CDL2CROWS,l_CDL2CROWS,i_CDL2CROWS,t_CDL2CROWS,c_CDL2CROWS,f_CDL2CROWS,w_CDL2CROWS,r_CDL2CROWS},
  {"CDL3BLACKCROWS",4,"OHLC",0,"",1,"i",b_CDL3BLACKCROWS,s_CDL3BLACKCROWS,l_CDL3BLACKCROWS,i_CDL3BLACKCROWS,t_CDL3BLACKCROWS,c_CDL3BLACKCROWS,f_CDL3BLACKCROWS,w_CDL3BLACKCROWS,r_CDL3BLACKCROWS},
  {"CDL3INSIDE",4,"OHLC",0,"",1,"i",b_CDL3INSIDE,s_CDL3INSIDE,l_CDL3INSIDE,i_CDL3INSIDE,t_CDL3INSIDE,c_CDL3INSIDE,f_CDL3INSIDE,w_CDL3INSIDE,r_CDL3INSIDE},
  {"CDL3LINESTRIKE",4,"OHLC",0,"",1,"i",b_CDL3LINESTRIKE,s_CDL3LINESTRIKE,l_CDL3LINESTRIKE,i_CDL3LINESTRIKE,t_CDL3LINESTRIKE,c_CDL3LINESTRIKE,f_CDL3LINESTRIKE,w_CDL3LINESTRIKE,r_CDL3LINESTRIKE},
  {"CDL3OUTSIDE",4,"OHLC",0,"",1,"i",b_CDL3OUTSIDE,s_CDL3OUTSIDE,l_CDL3OUTSIDE,i_CDL3OUTSIDE,t_CDL3OUTSIDE,c_CDL3OUTSIDE,f_CDL3OUTSIDE,w_CDL3OUTSIDE,r_CDL3OUTSIDE},
  {"CDL3STARSINSOUTH",4,"OHLC",0,"",1,"i",b_CDL3STARSINSOUTH,s_CDL3STARSINSOUTH,l_CDL3STARSINSOUTH,i_CDL3STARSINSOUTH,t_CDL3STARSINSOUTH,c_CDL3STARSINSOUTH,f_CDL3STARSINSOUTH,w_CDL3STARSINSOUTH,r_CDL3STARSINSOUTH},
  {"CDL3WHITESOLDIERS",4,"OHLC",0,"",1,"i",b_CDL3WHITESOLDIERS,s_CDL3WHITESOLDIERS,l_CDL3WHITESOLDIERS,i_CDL3WHITESOLDIERS,t_CDL3WHITESOLDIERS,c_CDL3WHITESOLDIERS,f_CDL3WHITESOLDIERS,w_CDL3WHITESOLDIERS,r_CDL3WHITESOLDIERS},
  {"CDLABANDONEDBABY",4,"OHLC",1,"r",1,"i",b_CDLABANDONEDBABY,s_CDLABANDONEDBABY,l_CDLABANDONEDBABY,i_CDLABANDONEDBABY,t_CDLABANDONEDBABY,c_CDLABANDONEDBABY,f_CDLABANDONEDBABY,w_CDLABANDONEDBABY,r_CDLABANDONEDBABY},
  {"CDLADVANCEBLOCK",4,"OHLC",0,"",1,"i",b_CDLADVANCEBLOCK,s_CDLADVANCEBLOCK,l_CDLADVANCEBLOCK,i_CDLADVANCEBLOCK,t_CDLADVANCEBLOCK,c_CDLADVANCEBLOCK,f_CDLADVANCEBLOCK,w_CDLADVANCEBLOCK,r_CDLADVANCEBLOCK},
  {"CDLBELTHOLD",4,"OHLC",0,"",1,"i",b_CDLBELTHOLD,s_CDLBELTHOLD,l_CDLBELTHOLD,i_CDLBELTHOLD,t_CDLBELTHOLD,c_CDLBELTHOLD,f_CDLBELTHOLD,w_CDLBELTHOLD,r_CDLBELTHOLD},
  {"CDLBREAKAWAY",4,"OHLC",0,"",1,"i",b_CDLBREAKAWAY,s_CDLBREAKAWAY,l_CDLBREAKAWAY,i_CDLBREAKAWAY,t_CDLBREAKAWAY,c_CDLBREAKAWAY,f_CDLBREAKAWAY,w_CDLBREAKAWAY,r_CDLBREAKAWAY},
  {"CDLCLOSINGMARUBOZU",4,"OHLC",0,"",1,"i",b_CDLCLOSINGMARUBOZU,s_CDLCLOSINGMARUBOZU,l_CDLCLOSINGMARUBOZU,i_CDLCLOSINGMARUBOZU,t_CDLCLOSINGMARUBOZU,c_CDLCLOSINGMARUBOZU,f_CDLCLOSINGMARUBOZU,w_CDLCLOSINGMARUBOZU,r_CDLCLOSINGMARUBOZU},
  {"CDLCONCEALBABYSWALL",4,"OHLC",0,"",1,"i",b_CDLCONCEALBABYSWALL,s_CDLCONCEALBABYSWALL,l_CDLCONCEALBABYSWALL,i_CDLCONCEALBABYSWALL,t_CDLCONCEALBABYSWALL,c_CDLCONCEALBABYSWALL,f_CDLCONCEALBABYSWALL,w_CDLCONCEALBABYSWALL,r_CDLCONCEALBABYSWALL},
  {"CDLCOUNTERATTACK",4,"OHLC",0,"",1,"i",b_CDLCOUNTERATTACK,s_CDLCOUNTERATTACK,l_CDLCOUNTERATTACK,i_CDLCOUNTERATTACK,t_CDLCOUNTERATTACK,c_CDLCOUNTERATTACK,f_CDLCOUNTERATTACK,w_CDLCOUNTERATTACK,r_CDLCOUNTERATTACK},
  {"CDLDARKCLOUDCOVER",4,"OHLC",1,"r",1,"i",b_CDLDARKCLOUDCOVER,s_CDLDARKCLOUDCOVER,l_CDLDARKCLOUDCOVER,i_CDLDARKCLOUDCOVER,t_CDLDARKCLOUDCOVER,c_CDLDARKCLOUDCOVER,f_CDLDARKCLOUDCOVER,w_CDLDARKCLOUDCOVER,r_CDLDARKCLOUDCOVER},
  {"CDLDOJI",4,"OHLC",0,"",1,"i",b_CDLDOJI,s_CDLDOJI,l_CDLDOJI,i_CDLDOJI,t_CDLDOJI,c_CDLDOJI,f_CDLDOJI,w_CDLDOJI,r_CDLDOJI},
  {"CDLDOJISTAR",4,"OHLC",0,"",1,"i",b_CDLDOJISTAR,s_CDLDOJISTAR,l_CDLDOJISTAR,i_CDLDOJISTAR,t_CDLDOJISTAR,c_CDLDOJISTAR,f_CDLDOJISTAR,w_CDLDOJISTAR,r_CDLDOJISTAR},
  {"CDLDRAGONFLYDOJI",4,"OHLC",0,"",1,"i",b_CDLDRAGONFLYDOJI,s_CDLDRAGONFLYDOJI,l_CDLDRAGONFLYDOJI,i_CDLDRAGONFLYDOJI,t_CDLDRAGONFLYDOJI,c_CDLDRAGONFLYDOJI,f_CDLDRAGONFLYDOJI,w_CDLDRAGONFLYDOJI,r_CDLDRAGONFLYDOJI},
  {"CDLENGULFING",4,"OHLC",0,"",1,"i",b_CDLENGULFING,s_CDLENGULFING,l_CDLENGULFING,i_CDLENGULFING,t_CDLENGULFING,c_CDLENGULFING,f_CDLENGULFING,w_CDLENGULFING,r_CDLENGULFING},
  {"CDLEVENINGDOJISTAR",4,"OHLC",1,"r",1,"i",b_CDLEVENINGDOJISTAR,s_CDLEVENINGDOJISTAR,l_CDLEVENINGDOJISTAR,i_CDLEVENINGDOJISTAR,t_CDLEVENINGDOJISTAR,c_CDLEVENINGDOJISTAR,f_CDLEVENINGDOJISTAR,w_CDLEVENINGDOJISTAR,r_CDLEVENINGDOJISTAR},
  {"CDLEVENINGSTAR",4,"OHLC",1,"r",1,"i",b_CDLEVENINGSTAR,s_CDLEVENINGSTAR,l_CDLEVENINGSTAR,i_CDLEVENINGSTAR,t_CDLEVENINGSTAR,c_CDLEVENINGSTAR,f_CDLEVENINGSTAR,w_CDLEVENINGSTAR,r_CDLEVENINGSTAR},
  {"CDLGAPSIDESIDEWHITE",4,"OHLC",0,"",1,"i",b_CDLGAPSIDESIDEWHITE,s_CDLGAPSIDESIDEWHITE,l_CDLGAPSIDESIDEWHITE,i_CDLGAPSIDESIDEWHITE,t_CDLGAPSIDESIDEWHITE,c_CDLGAPSIDESIDEWHITE,f_CDLGAPSIDESIDEWHITE,w_CDLGAPSIDESIDEWHITE,r_CDLGAPSIDESIDEWHITE},
  {"CDLGRAVESTONEDOJI",4,"OHLC",0,"",1,"i",b_CDLGRAVESTONEDOJI,s_CDLGRAVESTONEDOJI,l_CDLGRAVESTONEDOJI,i_CDLGRAVESTONEDOJI,t_CDLGRAVESTONEDOJI,c_CDLGRAVESTONEDOJI,f_CDLGRAVESTONEDOJI,w_CDLGRAVESTONEDOJI,r_CDLGRAVESTONEDOJI},
  {"CDLHAMMER",4,"OHLC",0,"",1,"i",b_CDLHAMMER,s_CDLHAMMER,l_CDLHAMMER,i_CDLHAMMER,t_CDLHAMMER,c_CDLHAMMER,f_CDLHAMMER,w_CDLHAMMER,r_CDLHAMMER},
  {"CDLHANGINGMAN",4,"OHLC",0,"",1,"i",b_CDLHANGINGMAN,s_CDLHANGINGMAN,l_CDLHANGINGMAN,i_CDLHANGINGMAN,t_CDLHANGINGMAN,c_CDLHANGINGMAN,f_CDLHANGINGMAN,w_CDLHANGINGMAN,r_CDLHANGINGMAN},
  {"CDLHARAMI",4,"OHLC",0,"",1,"i",b_CDLHARAMI,s_CDLHARAMI,l_CDLHARAMI,i_CDLHARAMI,t_CDLHARAMI,c_CDLHARAMI,f_CDLHARAMI,w_CDLHARAMI,r_CDLHARAMI},
  {"CDLHARAMICROSS",4,"OHLC",0,"",1,"i",b_CDLHARAMICROSS,s_CDLHARAMICROSS,l_CDLHARAMICROSS,i_CDLHARAMICROSS,t_CDLHARAMICROSS,c_CDLHARAMICROSS,f_CDLHARAMICROSS,w_CDLHARAMICROSS,r_CDLHARAMICROSS},
  {"CDLHIGHWAVE",4,"OHLC",0,"",1,"i",b_CDLHIGHWAVE,s_CDLHIGHWAVE,l_CDLHIGHWAVE,i_CDLHIGHWAVE,t_CDLHIGHWAVE,c_CDLHIGHWAVE,f_CDLHIGHWAVE,w_CDLHIGHWAVE,r_CDLHIGHWAVE},
  {"CDLHIKKAKE",4,"OHLC",0,"",1,"i",b_CDLHIKKAKE,s_CDLHIKKAKE,l_CDLHIKKAKE,i_CDLHIKKAKE,t_CDLHIKKAKE,c_CDLHIKKAKE,f_CDLHIKKAKE,w_CDLHIKKAKE,r_CDLHIKKAKE},
  {"CDLHIKKAKEMOD",4,"OHLC",0,"",1,"i",b_CDLHIKKAKEMOD,s_CDLHIKKAKEMOD,l_CDLHIKKAKEMOD,i_CDLHIKKAKEMOD,t_CDLHIKKAKEMOD,c_CDLHIKKAKEMOD,f_CDLHIKKAKEMOD,w_CDLHIKKAKEMOD,r_CDLHIKKAKEMOD},
  {"CDLHOMINGPIGEON",4,"OHLC",0,"",1,"i",b_CDLHOMINGPIGEON,s_CDLHOMINGPIGEON,l_CDLHOMINGPIGEON,i_CDLHOMINGPIGEON,t_CDLHOMINGPIGEON,c_CDLHOMINGPIGEON,f_CDLHOMINGPIGEON,w_CDLHOMINGPIGEON,r_CDLHOMINGPIGEON},
  {"CDLIDENTICAL3CROWS",4,"OHLC",0,"",1,"i",b_CDLIDENTICAL3CROWS,s_CDLIDENTICAL3CROWS,l_CDLIDENTICAL3CROWS,i_CDLIDENTICAL3CROWS,t_CDLIDENTICAL3CROWS,c_CDLIDENTICAL3CROWS,f_CDLIDENTICAL3CROWS,w_CDLIDENTICAL3CROWS,r_CDLIDENTICAL3CROWS},
  {"CDLINNECK",4,"OHLC",0,"",1,"i",b_CDLINNECK,s_CDLINNECK,l_CDLINNECK,i_CDLINNECK,t_CDLINNECK,c_CDLINNECK,f_CDLINNECK,w_CDLINNECK,r_CDLINNECK},
  {"CDLINVERTEDHAMMER",4,"OHLC",0,"",1,"i",b_CDLINVERTEDHAMMER,s_CDLINVERTEDHAMMER,l_CDLINVERTEDHAMMER,i_CDLINVERTEDHAMMER,t_CDLINVERTEDHAMMER,c_CDLINVERTEDHAMMER,f_CDLINVERTEDHAMMER,w_CDLINVERTEDHAMMER,r_CDLINVERTEDHAMMER},
  {"CDLKICKING",4,"OHLC",0,"",1,"i",b_CDLKICKING,s_CDLKICKING,l_CDLKICKING,i_CDLKICKING,t_CDLKICKING,c_CDLKICKING,f_CDLKICKING,w_CDLKICKING,r_CDLKICKING},
  {"CDLKICKINGBYLENGTH",4,"OHLC",0,"",1,"i",b_CDLKICKINGBYLENGTH,s_CDLKICKINGBYLENGTH,l_CDLKICKINGBYLENGTH,i_CDLKICKINGBYLENGTH,t_CDLKICKINGBYLENGTH,c_CDLKICKINGBYLENGTH,f_CDLKICKINGBYLENGTH,w_CDLKICKINGBYLENGTH,r_CDLKICKINGBYLENGTH},
  {"CDLLADDERBOTTOM",4,"OHLC",0,"",1,"i",b_CDLLADDERBOTTOM,s_CDLLADDERBOTTOM,l_CDLLADDERBOTTOM,i_CDLLADDERBOTTOM,t_CDLLADDERBOTTOM,c_CDLLADDERBOTTOM,f_CDLLADDERBOTTOM,w_CDLLADDERBOTTOM,r_CDLLADDERBOTTOM},
  {"CDLLONGLEGGEDDOJI",4,"OHLC",0,"",1,"i",b_CDLLONGLEGGEDDOJI,s_CDLLONGLEGGEDDOJI,l_CDLLONGLEGGEDDOJI,i_CDLLONGLEGGEDDOJI,t_CDLLONGLEGGEDDOJI,c_CDLLONGLEGGEDDOJI,f_CDLLONGLEGGEDDOJI,w_CDLLONGLEGGEDDOJI,r_CDLLONGLEGGEDDOJI},
  {"CDLLONGLINE",4,"OHLC",0,"",1,"i",b_CDLLONGLINE,s_CDLLONGLINE,l_CDLLONGLINE,i_CDLLONGLINE,t_CDLLONGLINE,c_CDLLONGLINE,f_CDLLONGLINE,w_CDLLONGLINE,r_CDLLONGLINE},
  {"CDLMARUBOZU",4,"OHLC",0,"",1,"i",b_CDLMARUBOZU,s_CDLMARUBOZU,l_CDLMARUBOZU,i_CDLMARUBOZU,t_CDLMARUBOZU,c_CDLMARUBOZU,f_CDLMARUBOZU,w_CDLMARUBOZU,r_CDLMARUBOZU},
  {"CDLMATCHINGLOW",4,"OHLC",0,"",1,"i",b_CDLMATCHINGLOW,s_CDLMATCHINGLOW,l_CDLMATCHINGLOW,i_CDLMATCHINGLOW,t_CDLMATCHINGLOW,c_CDLMATCHINGLOW,f_CDLMATCHINGLOW,w_CDLMATCHINGLOW,r_CDLMATCHINGLOW},
  {"CDLMATHOLD",4,"OHLC",1,"r",1,"i",b_CDLMATHOLD,s_CDLMATHOLD,l_CDLMATHOLD,i_CDLMATHOLD,t_CDLMATHOLD,c_CDLMATHOLD,f_CDLMATHOLD,w_CDLMATHOLD,r_CDLMATHOLD},
  {"CDLMORNINGDOJISTAR",4,"OHLC",1,"r",1,"i",b_CDLMORNINGDOJISTAR,s_CDLMORNINGDOJISTAR,l_CDLMORNINGDOJISTAR,i_CDLMORNINGDOJISTAR,t_CDLMORNINGDOJISTAR,c_CDLMORNINGDOJISTAR,f_CDLMORNINGDOJISTAR,w_CDLMORNINGDOJISTAR,r_CDLMORNINGDOJISTAR},
  {"CDLMORNINGSTAR",4,"OHLC",1,"r",1,"i",b_CDLMORNINGSTAR,s_CDLMORNINGSTAR,l_CDLMORNINGSTAR,i_CDLMORNINGSTAR,t_CDLMORNINGSTAR,c_CDLMORNINGSTAR,f_CDLMORNINGSTAR,w_CDLMORNINGSTAR,r_CDLMORNINGSTAR},
  {"CDLONNECK",4,"OHLC",0,"",1,"i",b_CDLONNECK,s_CDLONNECK,l_CDLONNECK,i_CDLONNECK,t_CDLONNECK,c_CDLONNECK,f_CDLONNECK,w_CDLONNECK,r_CDLONNECK},
  {"CDLPIERCING",4,"OHLC",0,"",1,"i",b_CDLPIERCING,s_CDLPIERCING,l_CDLPIERCING,i_CDLPIERCING,t_CDLPIERCING,c_CDLPIERCING,f_CDLPIERCING,w_CDLPIERCING,r_CDLPIERCING},
  {"CDLRICKSHAWMAN",4,"OHLC",0,"",1,"i",b_CDLRICKSHAWMAN,s_CDLRICKSHAWMAN,l_CDLRICKSHAWMAN,i_CDLRICKSHAWMAN,t_CDLRICKSHAWMAN,c_CDLRICKSHAWMAN,f_CDLRICKSHAWMAN,w_CDLRICKSHAWMAN,r_CDLRICKSHAWMAN},
  {"CDLRISEFALL3METHODS",4,"OHLC",0,"",1,"i",b_CDLRISEFALL3METHODS,s_CDLRISEFALL3METHODS,l_CDLRISEFALL3METHODS,i_CDLRISEFALL3METHODS,t_CDLRISEFALL3METHODS,c_CDLRISEFALL3METHODS,f_CDLRISEFALL3METHODS,w_CDLRISEFALL3METHODS,r_CDLRISEFALL3METHODS},
  {"CDLSEPARATINGLINES",4,"OHLC",0,"",1,"i",b_CDLSEPARATINGLINES,s_CDLSEPARATINGLINES,l_CDLSEPARATINGLINES,i_CDLSEPARATINGLINES,t_CDLSEPARATINGLINES,c_CDLSEPARATINGLINES,f_CDLSEPARATINGLINES,w_CDLSEPARATINGLINES,r_CDLSEPARATINGLINES},
  {"CDLSHOOTINGSTAR",4,"OHLC",0,"",1,"i",b_CDLSHOOTINGSTAR,s_CDLSHOOTINGSTAR,l_CDLSHOOTINGSTAR,i_CDLSHOOTINGSTAR,t_CDLSHOOTINGSTAR,c_CDLSHOOTINGSTAR,f_CDLSHOOTINGSTAR,w_CDLSHOOTINGSTAR,r_CDLSHOOTINGSTAR},
  {"CDLSHORTLINE",4,"OHLC",0,"",1,"i",b_CDLSHORTLINE,s_CDLSHORTLINE,l_CDLSHORTLINE,i_CDLSHORTLINE,t_CDLSHORTLINE,c_CDLSHORTLINE,f_CDLSHORTLINE,w_CDLSHORTLINE,r_CDLSHORTLINE},
  {"CDLSPINNINGTOP",4,"OHLC",0,"",1,"i",b_CDLSPINNINGTOP,s_CDLSPINNINGTOP,l_CDLSPINNINGTOP,i_CDLSPINNINGTOP,t_CDLSPINNINGTOP,c_CDLSPINNINGTOP,f_CDLSPINNINGTOP,w_CDLSPINNINGTOP,r_CDLSPINNINGTOP},
  {"CDLSTALLEDPATTERN",4,"OHLC",0,"",1,"i",b_CDLSTALLEDPATTERN,s_CDLSTALLEDPATTERN,l_CDLSTALLEDPATTERN,i_CDLSTALLEDPATTERN,t_CDLSTALLEDPATTERN,c_CDLSTALLEDPATTERN,f_CDLSTALLEDPATTERN,w_CDLSTALLEDPATTERN,r_CDLSTALLEDPATTERN},
  {"CDLSTICKSANDWICH",4,"OHLC",0,"",1,"i",b_CDLSTICKSANDWICH,s_CDLSTICKSANDWICH,l_CDLSTICKSANDWICH,i_CDLSTICKSANDWICH,t_CDLSTICKSANDWICH,c_CDLSTICKSANDWICH,f_CDLSTICKSANDWICH,w_CDLSTICKSANDWICH,r_CDLSTICKSANDWICH},
  {"CDLTAKURI",4,"OHLC",0,"",1,"i",b_CDLTAKURI,s_CDLTAKURI,l_CDLTAKURI,i_CDLTAKURI,t_CDLTAKURI,c_CDLTAKURI,f_CDLTAKURI,w_CDLTAKURI,r_CDLTAKURI},
  {"CDLTASUKIGAP",4,"OHLC",0,"",1,"i",b_CDLTASUKIGAP,s_CDLTASUKIGAP,l_CDLTASUKIGAP,i_CDLTASUKIGAP,t_CDLTASUKIGAP,c_CDLTASUKIGAP,f_CDLTASUKIGAP,w_CDLTASUKIGAP,r_CDLTASUKIGAP},
  {"CDLTHRUSTING",4,"OHLC",0,"",1,"i",b_CDLTHRUSTING,s_CDLTHRUSTING,l_CDLTHRUSTING,i_CDLTHRUSTING,t_CDLTHRUSTING,c_CDLTHRUSTING,f_CDLTHRUSTING,w_CDLTHRUSTING,r_CDLTHRUSTING},
  {"CDLTRISTAR",4,"OHLC",0,"",1,"i",b_CDLTRISTAR,s_CDLTRISTAR,l_CDLTRISTAR,i_CDLTRISTAR,t_CDLTRISTAR,c_CDLTRISTAR,f_CDLTRISTAR,w_CDLTRISTAR,r_CDLTRISTAR},
  {"CDLUNIQUE3RIVER",4,"OHLC",0,"",1,"i",b_CDLUNIQUE3RIVER,s_CDLUNIQUE3RIVER,l_CDLUNIQUE3RIVER,i_CDLUNIQUE3RIVER,t_CDLUNIQUE3RIVER,c_CDLUNIQUE3RIVER,f_CDLUNIQUE3RIVER,w_CDLUNIQUE3RIVER,r_CDLUNIQUE3RIVER},
  {"CDLUPSIDEGAP2CROWS",4,"OHLC",0,"",1,"i",b_CDLUPSIDEGAP2CROWS,s_CDLUPSIDEGAP2CROWS,l_CDLUPSIDEGAP2CROWS,i_CDLUPSIDEGAP2CROWS,t_CDLUPSIDEGAP2CROWS,c_CDLUPSIDEGAP2CROWS,f_CDLUPSIDEGAP2CROWS,w_CDLUPSIDEGAP2CROWS,r_CDLUPSIDEGAP2CROWS},
  {"CDLXSIDEGAP3METHODS",4,"OHLC",0,"",1,"i",b_CDLXSIDEGAP3METHODS,s_CDLXSIDEGAP3METHODS,l_CDLXSIDEGAP3METHODS,i_CDLXSIDEGAP3METHODS,t_CDLXSIDEGAP3METHODS,c_CDLXSIDEGAP3METHODS,f_CDLXSIDEGAP3METHODS,w_CDLXSIDEGAP3METHODS,r_CDLXSIDEGAP3METHODS},
  {"CEIL",1,"R",0,"",1,"r",b_CEIL,s_CEIL,l_CEIL,i_CEIL,t_CEIL,c_CEIL,f_CEIL,w_CEIL,r_CEIL},
  {"CMO",1,"R",1,"i",1,"r",b_CMO,s_CMO,l_CMO,i_CMO,t_CMO,c_CMO,f_CMO,w_CMO,r_CMO},
  {"CORREL",2,"RR",1,"i",1,"r",b_CORREL,s_CORREL,l_CORREL,i_CORREL,t_CORREL,c_CORREL,f_CORREL,w_CORREL,r_CORREL},
  {"COS",1,"R",0,"",1,"r",b_COS,s_COS,l_COS,i_COS,t_COS,c_COS,f_COS,w_COS,r_COS},
  {"COSH",1,"R",0,"",1,"r",b_COSH,s_COSH,l_COSH,i_COSH,t_COSH,c_COSH,f_COSH,w_COSH,r_COSH},
  {"DEMA",1,"R",1,"i",1,"r",b_DEMA,s_DEMA,l_DEMA,i_DEMA,t_DEMA,c_DEMA,f_DEMA,w_DEMA,r_DEMA},
  {"DIV",2,"RR",0,"",1,"r",b_DIV,s_DIV,l_DIV,i_DIV,t_DIV,c_DIV,f_DIV,w_DIV,r_DIV},
  {"DX",3,"HLC",1,"i",1,"r",b_DX,s_DX,l_DX,i_DX,t_DX,c_DX,f_DX,w_DX,r_DX},
  {"EMA",1,"R",1,"i",1,"r",b_EMA,s_EMA,l_EMA,i_EMA,t_EMA,c_EMA,f_EMA,w_EMA,r_EMA},
  {"EXP",1,"R",0,"",1,"r",b_EXP,s_EXP,l_EXP,i_EXP,t_EXP,c_EXP,f_EXP,w_EXP,r_EXP},
  {"FLOOR",1,"R",0,"",1,"r",b_FLOOR,s_FLOOR,l_FLOOR,i_FLOOR,t_FLOOR,c_FLOOR,f_FLOOR,w_FLOOR,r_FLOOR},
  {"HT_DCPERIOD",1,"R",0,"",1,"r",b_HT_DCPERIOD,s_HT_DCPERIOD,l_HT_DCPERIOD,i_HT_DCPERIOD,t_HT_DCPERIOD,c_HT_DCPERIOD,f_HT_DCPERIOD,w_HT_DCPERIOD,r_HT_DCPERIOD},
  {"HT_DCPHASE",1,"R",0,"",1,"r",b_HT_DCPHASE,s_HT_DCPHASE,l_HT_DCPHASE,i_HT_DCPHASE,t_HT_DCPHASE,c_HT_DCPHASE,f_HT_DCPHASE,w_HT_DCPHASE,r_HT_DCPHASE},
  {"HT_PHASOR",1,"R",0,"",2,"rr",b_HT_PHASOR,s_HT_PHASOR,l_HT_PHASOR,i_HT_PHASOR,t_HT_PHASOR,c_HT_PHASOR,f_HT_PHASOR,w_HT_PHASOR,r_HT_PHASOR},
  {"HT_SINE",1,"R",0,"",2,"rr",b_HT_SINE,s_HT_SINE,l_HT_SINE,i_HT_SINE,t_HT_SINE,c_HT_SINE,f_HT_SINE,w_HT_SINE,r_HT_SINE},
  {"HT_TRENDLINE",1,"R",0,"",1,"r",b_HT_TRENDLINE,s_HT_TRENDLINE,l_HT_TRENDLINE,i_HT_TRENDLINE,t_HT_TRENDLINE,c_HT_TRENDLINE,f_HT_TRENDLINE,w_HT_TRENDLINE,r_HT_TRENDLINE},
  {"HT_TRENDMODE",1,"R",0,"",1,"i",b_HT_TRENDMODE,s_HT_TRENDMODE,l_HT_TRENDMODE,i_HT_TRENDMODE,t_HT_TRENDMODE,c_HT_TRENDMODE,f_HT_TRENDMODE,w_HT_TRENDMODE,r_HT_TRENDMODE},
  {"IMI",2,"OC",1,"i",1,"r",b_IMI,s_IMI,l_IMI,i_IMI,t_IMI,c_IMI,f_IMI,w_IMI,r_IMI},
  {"KAMA",1,"R",1,"i",1,"r",b_KAMA,s_KAMA,l_KAMA,i_KAMA,t_KAMA,c_KAMA,f_KAMA,w_KAMA,r_KAMA},
  {"LINEARREG",1,"R",1,"i",1,"r",b_LINEARREG,s_LINEARREG,l_LINEARREG,i_LINEARREG,t_LINEARREG,c_LINEARREG,f_LINEARREG,w_LINEARREG,r_LINEARREG},
  {"LINEARREG_ANGLE",1,"R",1,"i",1,"r",b_LINEARREG_ANGLE,s_LINEARREG_ANGLE,l_LINEARREG_ANGLE,i_LINEARREG_ANGLE,t_LINEARREG_ANGLE,c_LINEARREG_ANGLE,f_LINEARREG_ANGLE,w_LINEARREG_ANGLE,r_LINEARREG_ANGLE},
  {"LINEARREG_INTERCEPT",1,"R",1,"i",1,"r",b_LINEARREG_INTERCEPT,s_LINEARREG_INTERCEPT,l_LINEARREG_INTERCEPT,i_LINEARREG_INTERCEPT,t_LINEARREG_INTERCEPT,c_LINEARREG_INTERCEPT,f_LINEARREG_INTERCEPT,w_LINEARREG_INTERCEPT,r_LINEARREG_INTERCEPT},
  {"LINEARREG_SLOPE",1,"R",1,"i",1,"r",b_LINEARREG_SLOPE,s_LINEARREG_SLOPE,l_LINEARREG_SLOPE,i_LINEARREG_SLOPE,t_LINEARREG_SLOPE,c_LINEARREG_SLOPE,f_LINEARREG_SLOPE,w_LINEARREG_SLOPE,r_LINEARREG_SLOPE},
  {"LN",1,"R",0,"",1,"r",b_LN,s_LN,l_LN,i_LN,t_LN,c_LN,f_LN,w_LN,r_LN},
  {"LOG10",1,"R",0,"",1,"r",b_LOG10,s_LOG10,l_LOG10,i_LOG10,t_LOG10,c_LOG10,f_LOG10,w_LOG10,r_LOG10},
  {"MA",1,"R",2,"im",1,"r",b_MA,s_MA,l_MA,i_MA,t_MA,c_MA,f_MA,w_MA,r_MA},
  {"MACD",1,"R",3,"iii",3,"rrr",b_MACD,s_MACD,l_MACD,i_MACD,t_MACD,c_MACD,f_MACD,w_MACD,r_MACD},
  {"MACDEXT",1,"R",6,"imimim",3,"rrr",b_MACDEXT,s_MACDEXT,l_MACDEXT,i_MACDEXT,t_MACDEXT,c_MACDEXT,f_MACDEXT,w_MACDEXT,r_MACDEXT},
  {"MACDFIX",1,"R",1,"i",3,"rrr",b_MACDFIX,s_MACDFIX,l_MACDFIX,i_MACDFIX,t_MACDFIX,c_MACDFIX,f_MACDFIX,w_MACDFIX,r_MACDFIX},
  {"MAMA",1,"R",2,"rr",2,"rr",b_MAMA,s_MAMA,l_MAMA,i_MAMA,t_MAMA,c_MAMA,f_MAMA,w_MAMA,r_MAMA},
  {"MAVP",2,"RP",3,"iim",1,"r",b_MAVP,s_MAVP,l_MAVP,i_MAVP,t_MAVP,c_MAVP,f_MAVP,w_MAVP,r_MAVP},
  {"MAX",1,"R",1,"i",1,"r",b_MAX,s_MAX,l_MAX,i_MAX,t_MAX,c_MAX,f_MAX,w_MAX,r_MAX},
  {"MAXINDEX",1,"R",1,"i",1,"i",b_MAXINDEX,s_MAXINDEX,l_MAXINDEX,i_MAXINDEX,t_MAXINDEX,c_MAXINDEX,f_MAXINDEX,w_MAXINDEX,r_MAXINDEX},
  {"MEDPRICE",2,"HL",0,"",1,"r",b_MEDPRICE,s_MEDPRICE,l_MEDPRICE,i_MEDPRICE,t_MEDPRICE,c_MEDPRICE,f_MEDPRICE,w_MEDPRICE,r_MEDPRICE},
  {"MFI",4,"HLCV",1,"i",1,"r",b_MFI,s_MFI,l_MFI,i_MFI,t_MFI,c_MFI,f_MFI,w_MFI,r_MFI},
  {"MIDPOINT",1,"R",1,"i",1,"r",b_MIDPOINT,s_MIDPOINT,l_MIDPOINT,i_MIDPOINT,t_MIDPOINT,c_MIDPOINT,f_MIDPOINT,w_MIDPOINT,r_MIDPOINT},
  {"MIDPRICE",2,"HL",1,"i",1,"r",b_MIDPRICE,s_MIDPRICE,l_MIDPRICE,i_MIDPRICE,t_MIDPRICE,c_MIDPRICE,f_MIDPRICE,w_MIDPRICE,r_MIDPRICE},
  {"MIN",1,"R",1,"i",1,"r",b_MIN,s_MIN,l_MIN,i_MIN,t_MIN,c_MIN,f_MIN,w_MIN,r_MIN},
  {"MININDEX",1,"R",1,"i",1,"i",b_MININDEX,s_MININDEX,l_MININDEX,i_MININDEX,t_MININDEX,c_MININDEX,f_MININDEX,w_MININDEX,r_MININDEX},
  {"MINMAX",1,"R",1,"i",2,"rr",b_MINMAX,s_MINMAX,l_MINMAX,i_MINMAX,t_MINMAX,c_MINMAX,f_MINMAX,w_MINMAX,r_MINMAX},
  {"MINMAXINDEX",1,"R",1,"i",2,"ii",b_MINMAXINDEX,s_MINMAXINDEX,l_MINMAXINDEX,i_MINMAXINDEX,t_MINMAXINDEX,c_MINMAXINDEX,f_MINMAXINDEX,w_MINMAXINDEX,r_MINMAXINDEX},
  {"MINUS_DI",3,"HLC",1,"i",1,"r",b_MINUS_DI,s_MINUS_DI,l_MINUS_DI,i_MINUS_DI,t_MINUS_DI,c_MINUS_DI,f_MINUS_DI,w_MINUS_DI,r_MINUS_DI},
  {"MINUS_DM",2,"HL",1,"i",1,"r",b_MINUS_DM,s_MINUS_DM,l_MINUS_DM,i_MINUS_DM,t_MINUS_DM,c_MINUS_DM,f_MINUS_DM,w_MINUS_DM,r_MINUS_DM},
  {"MOM",1,"R",1,"i",1,"r",b_MOM,s_MOM,l_MOM,i_MOM,t_MOM,c_MOM,f_MOM,w_MOM,r_MOM},
  {"MULT",2,"RR",0,"",1,"r",b_MULT,s_MULT,l_MULT,i_MULT,t_MULT,c_MULT,f_MULT,w_MULT,r_MULT},
  {"NATR",3,"HLC",1,"i",1,"r",b_NATR,s_NATR,l_NATR,i_NATR,t_NATR,c_NATR,f_NATR,w_NATR,r_NATR},
  {"NVI",2,"CV",0,"",1,"r",b_NVI,s_NVI,l_NVI,i_NVI,t_NVI,c_NVI,f_NVI,w_NVI,r_NVI},
  {"OBV",2,"CV",0,"",1,"r",b_OBV,s_OBV,l_OBV,i_OBV,t_OBV,c_OBV,f_OBV,w_OBV,r_OBV},
  {"PLUS_DI",3,"HLC",1,"i",1,"r",b_PLUS_DI,s_PLUS_DI,l_PLUS_DI,i_PLUS_DI,t_PLUS_DI,c_PLUS_DI,f_PLUS_DI,w_PLUS_DI,r_PLUS_DI},
  {"PLUS_DM",2,"HL",1,"i",1,"r",b_PLUS_DM,s_PLUS_DM,l_PLUS_DM,i_PLUS_DM,t_PLUS_DM,c_PLUS_DM,f_PLUS_DM,w_PLUS_DM,r_PLUS_DM},
  {"PPO",1,"R",3,"iim",1,"r",b_PPO,s_PPO,l_PPO,i_PPO,t_PPO,c_PPO,f_PPO,w_PPO,r_PPO},
  {"PVI",2,"CV",0,"",1,"r",b_PVI,s_PVI,l_PVI,i_PVI,t_PVI,c_PVI,f_PVI,w_PVI,r_PVI},
  {"PVT",2,"CV",0,"",1,"r",b_PVT,s_PVT,l_PVT,i_PVT,t_PVT,c_PVT,f_PVT,w_PVT,r_PVT},
  {"ROC",1,"R",1,"i",1,"r",b_ROC,s_ROC,l_ROC,i_ROC,t_ROC,c_ROC,f_ROC,w_ROC,r_ROC},
  {"ROCP",1,"R",1,"i",1,"r",b_ROCP,s_ROCP,l_ROCP,i_ROCP,t_ROCP,c_ROCP,f_ROCP,w_ROCP,r_ROCP},
  {"ROCR",1,"R",1,"i",1,"r",b_ROCR,s_ROCR,l_ROCR,i_ROCR,t_ROCR,c_ROCR,f_ROCR,w_ROCR,r_ROCR},
  {"ROCR100",1,"R",1,"i",1,"r",b_ROCR100,s_ROCR100,l_ROCR100,i_ROCR100,t_ROCR100,c_ROCR100,f_ROCR100,w_ROCR100,r_ROCR100},
  {"RSI",1,"R",1,"i",1,"r",b_RSI,s_RSI,l_RSI,i_RSI,t_RSI,c_RSI,f_RSI,w_RSI,r_RSI},
  {"SAR",2,"HL",2,"rr",1,"r",b_SAR,s_SAR,l_SAR,i_SAR,t_SAR,c_SAR,f_SAR,w_SAR,r_SAR},
  {"SAREXT",2,"HL",8,"rrrrrrrr",1,"r",b_SAREXT,s_SAREXT,l_SAREXT,i_SAREXT,t_SAREXT,c_SAREXT,f_SAREXT,w_SAREXT,r_SAREXT},
  {"SIN",1,"R",0,"",1,"r",b_SIN,s_SIN,l_SIN,i_SIN,t_SIN,c_SIN,f_SIN,w_SIN,r_SIN},
  {"SINH",1,"R",0,"",1,"r",b_SINH,s_SINH,l_SINH,i_SINH,t_SINH,c_SINH,f_SINH,w_SINH,r_SINH},
  {"SMA",1,"R",1,"i",1,"r",b_SMA,s_SMA,l_SMA,i_SMA,t_SMA,c_SMA,f_SMA,w_SMA,r_SMA},
  {"SQRT",1,"R",0,"",1,"r",b_SQRT,s_SQRT,l_SQRT,i_SQRT,t_SQRT,c_SQRT,f_SQRT,w_SQRT,r_SQRT},
  {"STDDEV",1,"R",2,"ir",1,"r",b_STDDEV,s_STDDEV,l_STDDEV,i_STDDEV,t_STDDEV,c_STDDEV,f_STDDEV,w_STDDEV,r_STDDEV},
  {"STOCH",3,"HLC",5,"iimim",2,"rr",b_STOCH,s_STOCH,l_STOCH,i_STOCH,t_STOCH,c_STOCH,f_STOCH,w_STOCH,r_STOCH},
  {"STOCHF",3,"HLC",3,"iim",2,"rr",b_STOCHF,s_STOCHF,l_STOCHF,i_STOCHF,t_STOCHF,c_STOCHF,f_STOCHF,w_STOCHF,r_STOCHF},
  {"STOCHRSI",1,"R",4,"iiim",2,"rr",b_STOCHRSI,s_STOCHRSI,l_STOCHRSI,i_STOCHRSI,t_STOCHRSI,c_STOCHRSI,f_STOCHRSI,w_STOCHRSI,r_STOCHRSI},
  {"SUB",2,"RR",0,"",1,"r",b_SUB,s_SUB,l_SUB,i_SUB,t_SUB,c_SUB,f_SUB,w_SUB,r_SUB},
  {"SUM",1,"R",1,"i",1,"r",b_SUM,s_SUM,l_SUM,i_SUM,t_SUM,c_SUM,f_SUM,w_SUM,r_SUM},
  {"T3",1,"R",2,"ir",1,"r",b_T3,s_T3,l_T3,i_T3,t_T3,c_T3,f_T3,w_T3,r_T3},
  {"TAN",1,"R",0,"",1,"r",b_TAN,s_TAN,l_TAN,i_TAN,t_TAN,c_TAN,f_TAN,w_TAN,r_TAN},
  {"TANH",1,"R",0,"",1,"r",b_TANH,s_TANH,l_TANH,i_TANH,t_TANH,c_TANH,f_TANH,w_TANH,r_TANH},
  {"TEMA",1,"R",1,"i",1,"r",b_TEMA,s_TEMA,l_TEMA,i_TEMA,t_TEMA,c_TEMA,f_TEMA,w_TEMA,r_TEMA},
  {"TRANGE",3,"HLC",0,"",1,"r",b_TRANGE,s_TRANGE,l_TRANGE,i_TRANGE,t_TRANGE,c_TRANGE,f_TRANGE,w_TRANGE,r_TRANGE},
  {"TRIMA",1,"R",1,"i",1,"r",b_TRIMA,s_TRIMA,l_TRIMA,i_TRIMA,t_TRIMA,c_TRIMA,f_TRIMA,w_TRIMA,r_TRIMA},
  {"TRIX",1,"R",1,"i",1,"r",b_TRIX,s_TRIX,l_TRIX,i_TRIX,t_TRIX,c_TRIX,f_TRIX,w_TRIX,r_TRIX},
  {"TSF",1,"R",1,"i",1,"r",b_TSF,s_TSF,l_TSF,i_TSF,t_TSF,c_TSF,f_TSF,w_TSF,r_TSF},
  {"TYPPRICE",3,"HLC",0,"",1,"r",b_TYPPRICE,s_TYPPRICE,l_TYPPRICE,i_TYPPRICE,t_TYPPRICE,c_TYPPRICE,f_TYPPRICE,w_TYPPRICE,r_TYPPRICE},
  {"ULTOSC",3,"HLC",3,"iii",1,"r",b_ULTOSC,s_ULTOSC,l_ULTOSC,i_ULTOSC,t_ULTOSC,c_ULTOSC,f_ULTOSC,w_ULTOSC,r_ULTOSC},
  {"VAR",1,"R",2,"ir",1,"r",b_VAR,s_VAR,l_VAR,i_VAR,t_VAR,c_VAR,f_VAR,w_VAR,r_VAR},
  {"WCLPRICE",3,"HLC",0,"",1,"r",b_WCLPRICE,s_WCLPRICE,l_WCLPRICE,i_WCLPRICE,t_WCLPRICE,c_WCLPRICE,f_WCLPRICE,w_WCLPRICE,r_WCLPRICE},
  {"WILLR",3,"HLC",1,"i",1,"r",b_WILLR,s_WILLR,l_WILLR,i_WILLR,t_WILLR,c_WILLR,f_WILLR,w_WILLR,r_WILLR},
  {"WLMA",1,"R",1,"i",1,"r",b_WLMA,s_WLMA,l_WLMA,i_WLMA,t_WLMA,c_WLMA,f_WLMA,w_WLMA,r_WLMA},
  {"WMA",1,"R",1,"i",1,"r",b_WMA,s_WMA,l_WMA,i_WMA,t_WMA,c_WMA,f_WMA,w_WMA,r_WMA},
};
const int NFN=sizeof(FN)/sizeof(FN[0]);
