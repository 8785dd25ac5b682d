use crate::{fees, gates, messages, proxies};
use engine::Check;

pub const CHECKS: &[Check] = &[
	Check { property: "T01", run: proxies::t01 },
	Check { property: "T02", run: gates::t02 },
	Check { property: "T03", run: fees::t03 },
	Check { property: "T04", run: fees::t04 },
	Check { property: "T05", run: messages::t05 },
	Check { property: "T06", run: gates::t06 },
	Check { property: "T07", run: fees::t07 },
	Check { property: "T08", run: fees::t08 },
	Check { property: "T10", run: messages::t10 },
];
