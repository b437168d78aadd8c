/*
  Timestamps: what is written for a time, and what is read back.
*/
#include "common.h"
#include <time.h>

static const char *const zones[]=
{
  "UTC0","EST5EDT,M3.2.0,M11.1.0","CET-1CEST,M3.5.0,M10.5.0/3","IST-5:30","NST3:30NDT,M3.2.0,M11.1.0",
  "<+1345>-13:45","<+14>-14","<-12>12","<-0030>0:30","NPT-5:45","ACST-9:30ACDT,M10.1.0,M4.1.0/3"
};

static void written(time_t t)
{
  char expect[64],*text;
  struct tm tm;
  time_t back=-1;
  const char *end;
  long n,minutes;
  localtime_r(&t,&tm);
  minutes=tm.tm_gmtoff/60;
  snprintf(expect,sizeof(expect),"%04d-%02d-%02dT%02d:%02d:%02d%c%02ld:%02ld",tm.tm_year+1900,tm.tm_mon+1,
    tm.tm_mday,tm.tm_hour,tm.tm_min,tm.tm_sec,minutes < 0 ? '-' : '+',labs(minutes)/60,labs(minutes) % 60);
  text=malloc(26);
  n=FormatWizardTime(t,26,text);
  MC_CHECK(n == 25 && strcmp(text,expect) == 0,"%ld is written as %s instead of %s",(long) t,text,expect);
  end=ParseWizardTime(text,&back);
  MC_CHECK(end == text+25,"%s is not read to its end",text);
  MC_CHECK(back == t,"%s is read as %ld instead of %ld",text,(long) back,(long) t);
  free(text);
}

/* the same time in the notation of another zone */
static void read_back(time_t t,int minutes)
{
  char line[64],*text;
  struct tm tm;
  time_t there=t+60*minutes,back=-1;
  const char *end;
  gmtime_r(&there,&tm);
  snprintf(line,sizeof(line),"%04d-%02d-%02dT%02d:%02d:%02d%c%02d:%02d",tm.tm_year+1900,tm.tm_mon+1,
    tm.tm_mday,tm.tm_hour,tm.tm_min,tm.tm_sec,minutes < 0 ? '-' : '+',abs(minutes)/60,abs(minutes) % 60);
  text=strdup(line);
  end=ParseWizardTime(text,&back);
  MC_CHECK(end == text+25,"%s is not read to its end",text);
  MC_CHECK(back == t,"%s is read as %ld instead of %ld",text,(long) back,(long) t);
  free(text);
}

static time_t first_day(int year)
{
  struct tm tm;
  memset(&tm,0,sizeof(tm));
  tm.tm_year=year-1900;
  tm.tm_mday=1;
  return(timegm(&tm));
}

static void body(void)
{
  static const int years[]={ 1970,1999,2000,2001,2004,2023,2024,2037,2038,2099,2100,2400 };
  static const int seconds[]={ 0,1,59,60,3599,3600,7200,43200,68400,86399 };
  int zone=mc_choose(sizeof(zones)/sizeof(*zones),"zone"),year=years[mc_choose(12,"year")],day,k;
  time_t t,first;
  setenv("TZ",zones[zone],1);
  tzset();
  first=first_day(year);
  switch (mc_choose(3,"part"))
  {
    case 0:     /* every day */
      for (day=year == 1970 ? 1 : -1; day < 368; day++)
        for (k=0; k < 10; k++)
          written(first+86400L*day+seconds[k]);
      break;
    case 1:     /* every quarter of an hour, in thorough runs every minute */
      for (t=first+86400; t < first+86400L*365; t+=mc_thorough() ? 60 : 900)
        written(t);
      break;
    case 2:
      for (day=1; day < 366; day+=mc_thorough() ? 1 : 9)
        for (k=0; k < 10; k++)
        {
          int minutes;
          for (minutes=-14*60; minutes <= 14*60; minutes+=15)
            read_back(first+86400L*day+seconds[k],minutes);
        }
      break;
  }
  mc_observe_int(year);
  mc_observe_int(zone);
  mc_nontrivial();
}

static const mc_harness h=
{
  .property="C47",.name="time_enum",.rule="days and quarters of an hour of twelve years in eleven zones",
  .body=body
};

int main(int argc,char **argv)
{
  return(mc_main(argc,argv,&h));
}
