/* the formats M_time_from_str documents */
static const char *const docfmt[] = {
"%m/%d/%Y %H",
"%m/%d/%Y %H %P",
"%m/%d/%Y %H %p",
"%m/%d/%Y %I %P",
"%m/%d/%Y %I %p",
"%m/%d/%Y %H%M",
"%m/%d/%Y %H%M %P",
"%m/%d/%Y %H%M %p",
"%m/%d/%Y %I%M %P",
"%m/%d/%Y %I%M %p",
"%m/%d/%Y %H%M%S",
"%m/%d/%Y %H%M%S %P",
"%m/%d/%Y %H%M%S %p",
"%m/%d/%Y %H%M%S %z",
"%m/%d/%Y %I%M%S %P",
"%m/%d/%Y %I%M%S %p",
"%m/%d/%Y %H:%M",
"%m/%d/%Y %H:%M %P",
"%m/%d/%Y %H:%M %p",
"%m/%d/%Y %I:%M %P",
"%m/%d/%Y %I:%M %p",
"%m/%d/%Y %H:%M:%S",
"%m/%d/%Y %H:%M:%S %P",
"%m/%d/%Y %H:%M:%S %p",
"%m/%d/%Y %I:%M:%S %P",
"%m/%d/%Y %I:%M:%S %p",
"%m/%d/%Y %H:%M:%S %z",
"%m/%d/%Y %H-%M",
"%m/%d/%Y %H-%M %P",
"%m/%d/%Y %H-%M %p",
"%m/%d/%Y %I-%M %P",
"%m/%d/%Y %I-%M %p",
"%m/%d/%Y %H-%M-%S",
"%m/%d/%Y %H-%M-%S %P",
"%m/%d/%Y %H-%M-%S %p",
"%m/%d/%Y %I-%M-%S %P",
"%m/%d/%Y %I-%M-%S %p",
"%m/%d/%Y %H-%M-%S %z",
"%m/%d/%Y T %H",
"%m/%d/%Y T %H %P",
"%m/%d/%Y T %H %p",
"%m/%d/%Y T %I %P",
"%m/%d/%Y T %I %p",
"%m/%d/%Y T %H%M",
"%m/%d/%Y T %H%M %P",
"%m/%d/%Y T %H%M %p",
"%m/%d/%Y T %I%M %P",
"%m/%d/%Y T %I%M %p",
"%m/%d/%Y T %H%M%S",
"%m/%d/%Y T %H%M%S %P",
"%m/%d/%Y T %H%M%S %p",
"%m/%d/%Y T %I%M%S %P",
"%m/%d/%Y T %I%M%S %p",
"%m/%d/%Y T %H%M%S %z",
"%m/%d/%Y T %H:%M",
"%m/%d/%Y T %H:%M %P",
"%m/%d/%Y T %H:%M %p",
"%m/%d/%Y T %I:%M %P",
"%m/%d/%Y T %I:%M %p",
"%m/%d/%Y T %H:%M:%S",
"%m/%d/%Y T %H:%M:%S %P",
"%m/%d/%Y T %H:%M:%S %p",
"%m/%d/%Y T %I:%M:%S %P",
"%m/%d/%Y T %I:%M:%S %p",
"%m/%d/%Y T %H:%M:%S %z",
"%m/%d/%Y T %H-%M",
"%m/%d/%Y T %H-%M %P",
"%m/%d/%Y T %H-%M %p",
"%m/%d/%Y T %I-%M %P",
"%m/%d/%Y T %I-%M %p",
"%m/%d/%Y T %H-%M-%S",
"%m/%d/%Y T %H-%M-%S %P",
"%m/%d/%Y T %H-%M-%S %p",
"%m/%d/%Y T %I-%M-%S %P",
"%m/%d/%Y T %I-%M-%S %p",
"%m/%d/%Y T %H-%M-%S %z",
"%m-%d-%Y %H",
"%m-%d-%Y %H %P",
"%m-%d-%Y %H %p",
"%m-%d-%Y %I %P",
"%m-%d-%Y %I %p",
"%m-%d-%Y %H%M",
"%m-%d-%Y %H%M %P",
"%m-%d-%Y %H%M %p",
"%m-%d-%Y %I%M %P",
"%m-%d-%Y %I%M %p",
"%m-%d-%Y %H%M%S",
"%m-%d-%Y %H%M%S %P",
"%m-%d-%Y %H%M%S %p",
"%m-%d-%Y %I%M%S %P",
"%m-%d-%Y %I%M%S %p",
"%m-%d-%Y %H%M%S %z",
"%m-%d-%Y %H:%M",
"%m-%d-%Y %H:%M %P",
"%m-%d-%Y %H:%M %p",
"%m-%d-%Y %I:%M %P",
"%m-%d-%Y %I:%M %p",
"%m-%d-%Y %H:%M:%S",
"%m-%d-%Y %H:%M:%S %P",
"%m-%d-%Y %H:%M:%S %p",
"%m-%d-%Y %I:%M:%S %P",
"%m-%d-%Y %I:%M:%S %p",
"%m-%d-%Y %H:%M:%S %z",
"%m-%d-%Y %H-%M",
"%m-%d-%Y %H-%M %P",
"%m-%d-%Y %H-%M %p",
"%m-%d-%Y %I-%M %P",
"%m-%d-%Y %I-%M %p",
"%m-%d-%Y %H-%M-%S",
"%m-%d-%Y %H-%M-%S %P",
"%m-%d-%Y %H-%M-%S %p",
"%m-%d-%Y %I-%M-%S %P",
"%m-%d-%Y %I-%M-%S %p",
"%m-%d-%Y %H-%M-%S %z",
"%m-%d-%Y T %H",
"%m-%d-%Y T %H %P",
"%m-%d-%Y T %H %p",
"%m-%d-%Y T %I %P",
"%m-%d-%Y T %I %p",
"%m-%d-%Y T %H%M",
"%m-%d-%Y T %H%M %P",
"%m-%d-%Y T %H%M %p",
"%m-%d-%Y T %I%M %P",
"%m-%d-%Y T %I%M %p",
"%m-%d-%Y T %H%M%S",
"%m-%d-%Y T %H%M%S %P",
"%m-%d-%Y T %H%M%S %p",
"%m-%d-%Y T %H%M%S %z",
"%m-%d-%Y T %I%M%S %P",
"%m-%d-%Y T %I%M%S %p",
"%m-%d-%Y T %H:%M",
"%m-%d-%Y T %H:%M %P",
"%m-%d-%Y T %H:%M %p",
"%m-%d-%Y T %I:%M %P",
"%m-%d-%Y T %I:%M %p",
"%m-%d-%Y T %H:%M:%S",
"%m-%d-%Y T %H:%M:%S %P",
"%m-%d-%Y T %H:%M:%S %p",
"%m-%d-%Y T %I:%M:%S %P",
"%m-%d-%Y T %I:%M:%S %p",
"%m-%d-%Y T %H:%M:%S %z",
"%m-%d-%Y T %H-%M",
"%m-%d-%Y T %H-%M %P",
"%m-%d-%Y T %H-%M %p",
"%m-%d-%Y T %I-%M %P",
"%m-%d-%Y T %I-%M %p",
"%m-%d-%Y T %H-%M-%S",
"%m-%d-%Y T %H-%M-%S %P",
"%m-%d-%Y T %H-%M-%S %p",
"%m-%d-%Y T %I-%M-%S %P",
"%m-%d-%Y T %I-%M-%S %p",
"%m-%d-%Y T %H-%M-%S %z",
"%m/%d/%y %H",
"%m/%d/%y %H %P",
"%m/%d/%y %H %p",
"%m/%d/%y %I %P",
"%m/%d/%y %I %p",
"%m/%d/%y %H%M",
"%m/%d/%y %H%M %P",
"%m/%d/%y %H%M %p",
"%m/%d/%y %I%M %P",
"%m/%d/%y %I%M %p",
"%m/%d/%y %H%M%S",
"%m/%d/%y %H%M%S %P",
"%m/%d/%y %H%M%S %p",
"%m/%d/%y %I%M%S %P",
"%m/%d/%y %I%M%S %p",
"%m/%d/%y %H%M%S %z",
"%m/%d/%y %H:%M",
"%m/%d/%y %H:%M %P",
"%m/%d/%y %H:%M %p",
"%m/%d/%y %I:%M %P",
"%m/%d/%y %I:%M %p",
"%m/%d/%y %H:%M:%S",
"%m/%d/%y %H:%M:%S %P",
"%m/%d/%y %H:%M:%S %p",
"%m/%d/%y %I:%M:%S %P",
"%m/%d/%y %I:%M:%S %p",
"%m/%d/%y %H:%M:%S %z",
"%m/%d/%y %H-%M",
"%m/%d/%y %H-%M %P",
"%m/%d/%y %H-%M %p",
"%m/%d/%y %I-%M %P",
"%m/%d/%y %I-%M %p",
"%m/%d/%y %H-%M-%S",
"%m/%d/%y %H-%M-%S %P",
"%m/%d/%y %H-%M-%S %p",
"%m/%d/%y %I-%M-%S %P",
"%m/%d/%y %I-%M-%S %p",
"%m/%d/%y %H-%M-%S %z",
"%m/%d/%y T %H",
"%m/%d/%y T %H %P",
"%m/%d/%y T %H %p",
"%m/%d/%y T %I %P",
"%m/%d/%y T %I %p",
"%m/%d/%y T %H%M",
"%m/%d/%y T %H%M %P",
"%m/%d/%y T %H%M %p",
"%m/%d/%y T %I%M %P",
"%m/%d/%y T %I%M %p",
"%m/%d/%y T %H%M%S",
"%m/%d/%y T %H%M%S %P",
"%m/%d/%y T %H%M%S %p",
"%m/%d/%y T %I%M%S %P",
"%m/%d/%y T %I%M%S %p",
"%m/%d/%y T %H%M%S %z",
"%m/%d/%y T %H:%M",
"%m/%d/%y T %H:%M %P",
"%m/%d/%y T %H:%M %p",
"%m/%d/%y T %I:%M %P",
"%m/%d/%y T %I:%M %p",
"%m/%d/%y T %H:%M:%S",
"%m/%d/%y T %H:%M:%S %P",
"%m/%d/%y T %H:%M:%S %p",
"%m/%d/%y T %I:%M:%S %P",
"%m/%d/%y T %I:%M:%S %p",
"%m/%d/%y T %H:%M:%S %z",
"%m/%d/%y T %H-%M",
"%m/%d/%y T %H-%M %P",
"%m/%d/%y T %H-%M %p",
"%m/%d/%y T %I-%M %P",
"%m/%d/%y T %I-%M %p",
"%m/%d/%y T %H-%M-%S",
"%m/%d/%y T %H-%M-%S %P",
"%m/%d/%y T %H-%M-%S %p",
"%m/%d/%y T %I-%M-%S %P",
"%m/%d/%y T %I-%M-%S %p",
"%m/%d/%y T %H-%M-%S %z",
"%Y/%m/%d %H",
"%Y/%m/%d %H %P",
"%Y/%m/%d %H %p",
"%Y/%m/%d %I %P",
"%Y/%m/%d %I %p",
"%Y/%m/%d %H%M",
"%Y/%m/%d %H%M %P",
"%Y/%m/%d %H%M %p",
"%Y/%m/%d %I%M %P",
"%Y/%m/%d %I%M %p",
"%Y/%m/%d %H%M%S",
"%Y/%m/%d %H%M%S %P",
"%Y/%m/%d %H%M%S %p",
"%Y/%m/%d %I%M%S %P",
"%Y/%m/%d %I%M%S %p",
"%Y/%m/%d %H%M%S %z",
"%Y/%m/%d %H:%M",
"%Y/%m/%d %H:%M %P",
"%Y/%m/%d %H:%M %p",
"%Y/%m/%d %I:%M %P",
"%Y/%m/%d %I:%M %p",
"%Y/%m/%d %H:%M:%S",
"%Y/%m/%d %H:%M:%S %P",
"%Y/%m/%d %H:%M:%S %p",
"%Y/%m/%d %I:%M:%S %P",
"%Y/%m/%d %I:%M:%S %p",
"%Y/%m/%d %H:%M:%S %z",
"%Y/%m/%d %H-%M",
"%Y/%m/%d %H-%M %P",
"%Y/%m/%d %H-%M %p",
"%Y/%m/%d %I-%M %P",
"%Y/%m/%d %I-%M %p",
"%Y/%m/%d %H-%M-%S",
"%Y/%m/%d %H-%M-%S %P",
"%Y/%m/%d %H-%M-%S %p",
"%Y/%m/%d %I-%M-%S %P",
"%Y/%m/%d %I-%M-%S %p",
"%Y/%m/%d %H-%M-%S %z",
"%Y/%m/%d T %H",
"%Y/%m/%d T %H %P",
"%Y/%m/%d T %H %p",
"%Y/%m/%d T %I %P",
"%Y/%m/%d T %I %p",
"%Y/%m/%d T %H%M",
"%Y/%m/%d T %H%M %P",
"%Y/%m/%d T %H%M %p",
"%Y/%m/%d T %I%M %P",
"%Y/%m/%d T %I%M %p",
"%Y/%m/%d T %H%M%S",
"%Y/%m/%d T %H%M%S %P",
"%Y/%m/%d T %H%M%S %p",
"%Y/%m/%d T %I%M%S %P",
"%Y/%m/%d T %I%M%S %p",
"%Y/%m/%d T %H%M%S %z",
"%Y/%m/%d T %H:%M",
"%Y/%m/%d T %H:%M %P",
"%Y/%m/%d T %H:%M %p",
"%Y/%m/%d T %I:%M %P",
"%Y/%m/%d T %I:%M %p",
"%Y/%m/%d T %H:%M:%S",
"%Y/%m/%d T %H:%M:%S %P",
"%Y/%m/%d T %H:%M:%S %p",
"%Y/%m/%d T %I:%M:%S %P",
"%Y/%m/%d T %I:%M:%S %p",
"%Y/%m/%d T %H:%M:%S %z",
"%Y/%m/%d T %H-%M",
"%Y/%m/%d T %H-%M %P",
"%Y/%m/%d T %H-%M %p",
"%Y/%m/%d T %I-%M %P",
"%Y/%m/%d T %I-%M %p",
"%Y/%m/%d T %H-%M-%S",
"%Y/%m/%d T %H-%M-%S %P",
"%Y/%m/%d T %H-%M-%S %p",
"%Y/%m/%d T %I-%M-%S %P",
"%Y/%m/%d T %I-%M-%S %p",
"%Y/%m/%d T %H-%M-%S %z",
"%Y-%m-%d %H",
"%Y-%m-%d %H %P",
"%Y-%m-%d %H %p",
"%Y-%m-%d %I %P",
"%Y-%m-%d %I %p",
"%Y-%m-%d %H%M",
"%Y-%m-%d %H%M %P",
"%Y-%m-%d %H%M %p",
"%Y-%m-%d %I%M %P",
"%Y-%m-%d %I%M %p",
"%Y-%m-%d %H%M%S",
"%Y-%m-%d %H%M%S %P",
"%Y-%m-%d %H%M%S %p",
"%Y-%m-%d %I%M%S %P",
"%Y-%m-%d %I%M%S %p",
"%Y-%m-%d %H%M%S %z",
"%Y-%m-%d %H:%M",
"%Y-%m-%d %H:%M %P",
"%Y-%m-%d %H:%M %p",
"%Y-%m-%d %I:%M %P",
"%Y-%m-%d %I:%M %p",
"%Y-%m-%d %H:%M:%S",
"%Y-%m-%d %H:%M:%S %P",
"%Y-%m-%d %H:%M:%S %p",
"%Y-%m-%d %I:%M:%S %P",
"%Y-%m-%d %I:%M:%S %p",
"%Y-%m-%d %H:%M:%S %z",
"%Y-%m-%d %H-%M",
"%Y-%m-%d %H-%M %P",
"%Y-%m-%d %H-%M %p",
"%Y-%m-%d %I-%M %P",
"%Y-%m-%d %I-%M %p",
"%Y-%m-%d %H-%M-%S",
"%Y-%m-%d %H-%M-%S %P",
"%Y-%m-%d %H-%M-%S %p",
"%Y-%m-%d %I-%M-%S %P",
"%Y-%m-%d %I-%M-%S %p",
"%Y-%m-%d %H-%M-%S %z",
"%Y-%m-%d T %H",
"%Y-%m-%d T %H %P",
"%Y-%m-%d T %H %p",
"%Y-%m-%d T %I %P",
"%Y-%m-%d T %I %p",
"%Y-%m-%d T %H%M",
"%Y-%m-%d T %H%M %P",
"%Y-%m-%d T %H%M %p",
"%Y-%m-%d T %I%M %P",
"%Y-%m-%d T %I%M %p",
"%Y-%m-%d T %H%M%S",
"%Y-%m-%d T %H%M%S %P",
"%Y-%m-%d T %H%M%S %p",
"%Y-%m-%d T %I%M%S %P",
"%Y-%m-%d T %I%M%S %p",
"%Y-%m-%d T %H%M%S %z",
"%Y-%m-%d T %H:%M",
"%Y-%m-%d T %H:%M %P",
"%Y-%m-%d T %H:%M %p",
"%Y-%m-%d T %I:%M %P",
"%Y-%m-%d T %I:%M %p",
"%Y-%m-%d T %H:%M:%S",
"%Y-%m-%d T %H:%M:%S %P",
"%Y-%m-%d T %H:%M:%S %p",
"%Y-%m-%d T %I:%M:%S %P",
"%Y-%m-%d T %I:%M:%S %p",
"%Y-%m-%d T %H:%M:%S %z",
"%Y-%m-%d T %H-%M",
"%Y-%m-%d T %H-%M %P",
"%Y-%m-%d T %H-%M %p",
"%Y-%m-%d T %I-%M %P",
"%Y-%m-%d T %I-%M %p",
"%Y-%m-%d T %H-%M-%S",
"%Y-%m-%d T %H-%M-%S %P",
"%Y-%m-%d T %H-%M-%S %p",
"%Y-%m-%d T %I-%M-%S %P",
"%Y-%m-%d T %I-%M-%S %p",
"%Y-%m-%d T %H-%M-%S %z",
"%m/%d/%Y",
"%m-%d-%Y",
"%m-%d-%y",
"%m/%d/%y",
"%m%d%Y",
"%m%d%y",
"%Y/%m/%d",
"%Y-%m-%d",
};
