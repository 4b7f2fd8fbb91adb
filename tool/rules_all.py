import rules_adnl  # noqa: F401
import rules_rldp  # noqa: F401
import rules_overlay  # noqa: F401
import rules_dht
import rules_cross  # noqa
import rules_safe  # noqa
import rules_proto  # noqa
import rules_session  # noqa
import rules_reasm  # noqa
import rules_sign
import rules_dhtq  # noqa
